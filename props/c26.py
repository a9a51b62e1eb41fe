from vt import report
from . import species


def main(tier):
    return report.run_check('C26', species.structure_cases(tier), tier,
                            'The real extract_smiles_species runs on an xml document whose species names and SMILES are symbolic strings, each with or without a SMILES entry; z3 decides every string comparison '
                            'and that each species of the mechanism gets the structure of its own entry or none.',
                            ['names in the xml and in the mechanism are distinct', 'the document object model (xml.dom.minidom) returns the elements of the file in order'],
                            ['more entries or longer names than listed', 'Open Babel', 'structures that differ from each other only in notation'])
