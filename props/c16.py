from vt import report
from . import solver


def main(tier):
    return report.run_check('C16', solver.cases('rhs', tier), tier, 'run_simulation of the real solver modules is executed symbolically with the integrator '
                            'and the generated modules replaced; z3 decides each claim for all times, states, temperatures and durations.',
                            solver.ASSUME, solver.OUTSIDE)
