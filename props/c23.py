from vt import report
from . import aero


def main(tier):
    return report.run_check('C23', aero.cases('rhs', tier) + aero.cases('args', tier), tier,
                            'The real run_simulation of the aerosol and fixed-yield solver modules runs with the integrator replaced by one that calls the right-hand side at symbolic times and states; '
                            'the partitioning routine takes its arguments in the order of the subroutine the current source emits. z3 decides each tendency and each of its 26 arguments.',
                            aero.ASSUME, aero.OUTSIDE)
