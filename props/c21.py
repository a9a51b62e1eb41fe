from vt import report
from . import sizes


def main(tier):
    return report.run_check('C21', sizes.cases(tier), tier,
                            'The real lognormal() runs on symbolic parameters; scipy.stats.lognorm.pdf is its textbook formula over uninterpreted exp and log. z3 decides, for all parameter values: '
                            'sizes are spaced evenly in log between the limits, each bin holds its share of the lognormal density, the bins add up to the total.',
                            ['total, mean size, limits > 0, geometric standard deviation > 1, lower < upper', 'exp and log are uninterpreted with exp(log(x)) = x and positivity',
                             'exact real arithmetic'], ['more bins than listed', 'rounding', 'underflow of the density when all bins are far from the mean'])
