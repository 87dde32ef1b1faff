from mc import core

RULE = ("Every assignment of {nothing, vortex+, vortex-, heat, streak} to the sites of a 4x2 (thorough 3x3) lattice with cells forced to "
        "split by size; every subset of a 4x3 (4x4) lattice of clusters that split by count; bodies x inclusion flags x arrangements "
        "(lines, coincident heaps, elements on splitting lines, geometric clusters) x size limits x far criteria, with point look-ups on a "
        "41x41 grid. Each is built, checked, destroyed, rebuilt, checked. Non-trivial: more than one cell.")


def run(ctx):
    exe = core.build_harness("c05", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
