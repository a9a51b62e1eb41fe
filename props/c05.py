from . import c04


def main(tier):
    return c04.main(tier, 'fortran', 'C05')
