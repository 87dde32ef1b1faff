from mc import core

RULE = ("Spaces are the default space with every set of at most two field deviations (quick: every single deviation and a fixed "
        "eighth of the pairs; thorough: all pairs), loaded into a fresh and into a full space; plus all 343 load sequences of length 3 "
        "into one space, body counts across digit boundaries, every file name length 4..250, all invalid-body refusals. "
        "A case is non-trivial when a file was written, read back and all persistent fields compared (or refused as required). All are distinct.")


def run(ctx):
    exe = core.build_harness("c01", "asan")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 3000)
    ctx.rule = RULE
