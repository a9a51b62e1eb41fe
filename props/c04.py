from vt import report
from . import rates


def main(tier, backend='numba', pid='C04'):
    return report.run_check(pid, rates.conv_cases(backend, tier), tier, rates.EXPL +
                            'Claim: the converted expression has the value of the original text under the rules of the mechanism language.',
                            rates.ASSUME, ['expressions outside the listed forms', 'rounding'])
