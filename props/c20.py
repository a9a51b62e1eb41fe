from vt import report
from . import partition


def main(tier):
    return report.run_check('C20', partition.cases('law', tier), tier,
                            partition.EXPL + 'Claim: radius, water activity, transfer of every species and organic mass follow the published condensation law.',
                            partition.ASSUME, partition.OUTSIDE)
