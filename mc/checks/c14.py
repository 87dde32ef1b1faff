from mc import core

RULE = ("All fields on small grids with corner values from a small set (2x2 of 6 values, 3x3 of 3 and 4, 5x2, 2x5, 4x3 of 3, 4x4 and 5x4 "
        "of 2; thorough adds 4x6 binary and finer levels) with level sets that pass between and exactly through corner values; all 3x3 fields "
        "with every single cut. The polylines are split into segments and compared as a multiset with the crossings of each cell (either "
        "non-crossing pairing allowed in a saddle). Non-trivial: at least one crossing exists. All (field, level set) pairs are distinct.")


def run(ctx):
    exe = core.build_harness("c14", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
