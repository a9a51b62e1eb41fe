from vt import report
from . import partition


def main(tier):
    return report.run_check('C19', partition.cases('mass', tier), tier,
                            partition.EXPL + 'Claim: what a species gains on all size bins it loses from the gas phase, species that do not condense are untouched.',
                            partition.ASSUME, partition.OUTSIDE)
