from vt import report
from . import positive


def main(tier):
    return report.run_check('C30', positive.cases(tier), tier,
                            positive.EXPL + 'Claim: a species whose concentration is zero has a tendency that is not negative.', positive.ASSUME, positive.OUTSIDE)
