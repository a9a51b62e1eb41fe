from vt import report
from . import gen


def main(tier):
    return report.run_check('C12', gen.cases('jac', 'numba', tier), tier,
                            gen.EXPL + 'Claim: the emitted Jacobian = analytic derivative of the right-hand side of the mechanism.', gen.ASSUME, gen.OUTSIDE)
