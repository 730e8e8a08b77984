"""C03: sorting does not depend on the memory budget or on how the input arrives (library)."""
import core

BOUNDS = {
    "quick": "Sorter on every file of up to 4 lines over 5 lines (3 for most keys) x 8 key lists x 19 budgets from 0 bytes x 3 read patterns x unique, with and without final newline, and by add_data; every cut of reads for every split of up to 3 lines over two files; output, input and spill faults at every byte; up to 150 lines spilled into many files, 520 temporary files; lines up to 200,001 bytes; lines that look like headers; up to three files by name with every assignment of two headers or none",
    "thorough": "as quick with up to 5 lines, 48 budgets, 11 free cuts, 600 lines",
}
RULE = "shards with their number of distinct outputs"
ASSUMPTIONS = ["random keys are covered by C02", "the alternate algorithms are reached with the default budget only (C01, C04)"]
SHARDS = 64
LIB = None


def prepare(base, tier):
    global LIB
    LIB = core.build_lib(base)


def cases(tier):
    for i in range(SHARDS):
        yield ("external sort", tier, i)


def run(srv, case):
    return core.run_lib(srv, LIB, "sort", case[1], case[2], SHARDS)
