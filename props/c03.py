from vt import report
from . import parse


def main(tier):
    return report.run_check('C03', parse.make_cases(parse.rate_cases(tier), parse.assert_rates), tier,
                            parse.EXPL + 'Claim: the number of reactions, and each reaction\'s rate text up to white space, are those of the file.',
                            parse.ASSUME, parse.OUTSIDE)
