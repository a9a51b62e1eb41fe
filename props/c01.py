from vt import report
from . import parse


def main(tier):
    return report.run_check('C01', parse.make_cases(parse.stoich_cases(tier), parse.assert_stoich), tier,
                            parse.EXPL + 'Claim: per reaction and species, recorded loss (gain) = sum of the coefficients written on the left (right).',
                            parse.ASSUME, parse.OUTSIDE)
