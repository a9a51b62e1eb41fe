from vt import report
from . import rates


def main(tier):
    return report.run_check('C06', rates.k_cases(tier), tier, rates.EXPL + 'Claim: every named constant equals its published definition (ref/mcm.py).',
                            rates.ASSUME, ['intermediate quantities that no mechanism can reference', 'rounding'])
