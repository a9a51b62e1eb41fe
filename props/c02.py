from vt import report
from . import parse


def main(tier):
    return report.run_check('C02', parse.make_cases(parse.index_cases(tier), parse.assert_species), tier,
                            parse.EXPL + 'Claim: the species of the file and 0..n-1 are in bijection through the two maps.',
                            parse.ASSUME, parse.OUTSIDE)
