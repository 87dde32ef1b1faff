from mc import core

RULE = ("Every assignment of 6 strengths (zero, below, at and above the threshold, both signs) and slip to the segments of a square x motion; every "
        "list of 7 (thorough 9) vortices, markers and heat particles each kept, too weak or absorbed x removal on/off x threshold; a 9x9 (15x15) lattice of "
        "elements moving in all directions against 11 sets of bodies (solid, domain, overlapping) x 36 motions x shifts x 4 streak periods for 3 "
        "steps. Positions, lists, accounts of every segment and body, impulse and moment are compared with a bookkeeping of its own. Cases with "
        "a particle on a contour or equally near to two segments are counted and not judged. Non-trivial: something was shed or absorbed.")


def run(ctx):
    exe = core.build_harness("c08", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
