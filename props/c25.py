from vt import report
from . import species


def main(tier):
    return report.run_check('C25', species.yield_cases(tier), tier,
                            'The real extract_species reads a file whose SMILES characters and yield digits are symbolic; over every such file z3 decides the positions, structures and yields recorded.',
                            ['lines hold a SMILES string and a number', 'exact decimal values'],
                            ['more or longer lines than listed', 'Open Babel', 'which yield counts when a compound is listed twice'])
