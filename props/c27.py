from vt import report
from . import drivers


def main(tier):
    return report.run_check('C27', drivers.cases(['aerosol', 'fixed yield'], ['run'], tier), tier,
                            'The real aerosol and fixed-yield driver scripts run with every number at their top symbolic. z3 decides, for every value, each array and number they hand to the solver: properties '
                            'aligned with the condensing species and water, core and water amounts in every bin, yields, water vapour, constants.',
                            drivers.ASSUME, drivers.OUTSIDE)
