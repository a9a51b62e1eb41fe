from vt import report
from . import gen


def main(tier):
    return report.run_check('C11', gen.cases('reactants', 'sparse', tier) + gen.cases('dydt', 'sparse', tier), tier,
                            gen.EXPL + 'Claim: the saved index lists and sparse matrices hold exactly the reactant orders and net coefficients of the mechanism.', gen.ASSUME, gen.OUTSIDE)
