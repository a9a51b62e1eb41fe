from vt import report
from . import aero


def main(tier):
    return report.run_check('C24', aero.cases('initial', tier) + aero.cases('saved', tier), tier,
                            'The real run_simulation of the aerosol and fixed-yield solver modules runs with symbolic duration, batch length, abundances and states; z3 decides the initial state, that the '
                            'batches cover the simulation time and continue each other, and every saved number.',
                            aero.ASSUME, aero.OUTSIDE)
