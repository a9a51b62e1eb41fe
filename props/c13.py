from vt import report
from . import gen


def main(tier):
    return report.run_check('C13', gen.cases('jac', 'fortran', tier), tier,
                            gen.EXPL + 'Claim: the emitted Fortran Jacobian = analytic derivative of the right-hand side of the mechanism.', gen.ASSUME, gen.OUTSIDE)
