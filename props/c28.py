from vt import report
from . import drivers


def main(tier):
    cs = drivers.cases(['gas numba', 'gas f2py'], ['run', 'files', 'restart'], tier) + drivers.cases(['aerosol', 'fixed yield'], ['files', 'restart'], tier)
    return report.run_check('C28', cs, tier,
                            'The four real driver scripts run against recording stand-ins with every number at their top symbolic: z3 decides that the generated modules the solver imports are written from '
                            'the dictionaries of the parsed mechanism and compiled before the run, and that a run from the saved files hands the solver the same numbers.',
                            drivers.ASSUME, drivers.OUTSIDE)
