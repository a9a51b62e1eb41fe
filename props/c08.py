from vt import report
from . import rates


def main(tier):
    return report.run_check('C08', rates.dom_cases(tier), tier, rates.EXPL + 'Claim: every constant is positive; no denominator vanishes; logarithms, roots and powers stay in their domain.',
                            rates.ASSUME + ['1 + x <= exp(x) <= 1/(1-x) for x < 1; sign of the logarithm'], ['temperatures outside 200..330 K', 'overflow and underflow'])
