from mc import core

RULE = ("Every assignment of {nothing,+,-} to the sites of a jittered 3x3 (thorough 4x3) lattice x 5 walls/spacings x one cell or many x "
        "merging on/off; all quadruples of 8 strengths x 12 spacings x wall; heaps of 0..4 coincident vortices. Strengths make every subset sum "
        "unique, so the survivors are decoded into the groups they stand for: each vortex is in exactly one, at a position some order of "
        "pairwise merges gives; with up to 5 vortices in one cell the outcome is that of the rule for some order of vortices. Core sizes are "
        "compared with the second nearest neighbour, after merging with the rule's own (survivors' core, wall limit). The same for heat particles "
        "(lattices and heaps) and for walls of unequal segments. Non-trivial: a merge took place, or inviscid with 2 vortices or more.")


def run(ctx):
    exe = core.build_harness("c07", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
