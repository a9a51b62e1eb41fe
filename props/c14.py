from vt import report
from . import ro2


def main(tier):
    return report.run_check('C14', ro2.cases(tier), tier, 'write_RO2_indices runs on a species table whose names are symbolic characters; z3 decides for every name whether '
                            'its position is saved exactly once if and only if the name is on the published list (ref/ro2_names.txt).',
                            ['ref/ro2_names.txt is the published list; every species that reacts at a rate containing RO2 in the shipped mechanisms is on it'],
                            ['names with other characters than capital letters and digits, longer than the bound'])
