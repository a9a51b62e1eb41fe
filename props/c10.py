from vt import report
from . import gen


def main(tier):
    return report.run_check('C10', gen.cases('dydt', 'numba', tier) + gen.cases('dydt', 'fortran', tier), tier,
                            gen.EXPL + 'Claim: every emitted d[species]/dt = sum over reactions of (produced - consumed) * rate; zero for bath species.', gen.ASSUME, gen.OUTSIDE)
