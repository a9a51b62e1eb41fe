from vt import report
from . import gen


def main(tier):
    return report.run_check('C09', gen.cases('reactants', 'numba', tier) + gen.cases('reactants', 'fortran', tier), tier,
                            gen.EXPL + 'Claim: entry k of the emitted reactants routine = product of reactant concentrations of reaction k, each to the power of its coefficient.', gen.ASSUME, gen.OUTSIDE)
