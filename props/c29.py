from vt import report
from . import plots


def main(tier):
    return report.run_check('C29', plots.cases(tier), tier,
                            plots.EXPL + 'Claim: per bin every organic compound has a bar of its mass share on top of the previous ones; the stated mass and the mass curve are the organic mass; the gas-phase curves are the saved results.',
                            plots.ASSUME, plots.OUTSIDE)
