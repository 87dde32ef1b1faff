from mc import core

RULE = ("Every assignment of none, + and - to 9 points at 2 (thorough 4) spacings next to 5 walls (none, plate, domain, two bodies, a small body between "
        "the vortices); a pair at 12 places with 6x6 strengths and 14x5 core sizes next to each wall; every pattern of signs of 6 (9) clusters cut into "
        "cells in 6 ways next to each wall. Velocities of vortices and heat particles, the friction of every segment, the forces and profiles made of it "
        "are compared with a direct sum in long double. Cases with a distance on the cut-off of the exponent are counted and not judged. Non-trivial: at least two vortices.")


def run(ctx):
    exe = core.build_harness("c25", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
