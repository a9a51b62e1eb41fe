from vt import report
from . import rates


def main(tier):
    return report.run_check('C07', rates.j_cases(tier), tier, rates.EXPL +
                            'Claim: zero for cos(zenith) <= 1e-30, l*cos**m*exp(-n/cos) otherwise, never negative, equal at t and t + 86400 s.',
                            rates.ASSUME + ['the fixed day and place written in the code (day 150, 51.51 N, 0.13 E) are part of the reference'],
                            ['negative times', 'rounding at the horizon'])
