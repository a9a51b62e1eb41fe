from vt import report
from . import purecomp


def main(tier):
    return report.run_check('C22', purecomp.cases(tier), tier,
                            'The real Pure_component1/2 run with every UManSysProp method an uninterpreted function of exactly its documented arguments. For every value of temperature, cutoff and '
                            'property, z3 decides that each species gets its own property values from the chosen methods at its own position, that exactly the species without SMILES or above the '
                            'vapour pressure cutoff are ignored, and the diffusivity, thermal velocity and mean free path formulas.',
                            ['UManSysProp methods are functions of the documented arguments', 'exact real arithmetic', 'compounds with a SMILES contain carbon'],
                            ['more species than listed', 'UManSysProp itself', 'values recorded for species that are ignored'])
