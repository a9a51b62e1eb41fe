from vt import report
from . import gen, partition, rates


def main(tier):
    return report.run_check('C15', gen.omp_cases(tier) + partition.cases('threads', tier) + rates.omp_cases(tier), tier,
                            gen.EXPL + 'Claim: with the OpenMP flag, for every cpu count, the values are those of the mechanism, every block is executed by exactly one thread and no two concurrent blocks '
                            'touch the same element; a conflict is confirmed by a native multi-threaded run or by an adversarial schedule of the emitted code.', gen.ASSUME, gen.OUTSIDE)
