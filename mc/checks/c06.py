from mc import core

RULE = ("Vortex clusters of every sign pattern in 16 directions x 4 distances x 2 sizes around targets of every kind; every assignment of "
        "{none,+,-} to the spots of a 4x2 (thorough 3x3) lattice; 0-2 bodies x motions (8 each) x slip patterns x sinks with points at five "
        "distances from every segment; list sizes around 16, 256 and above. Each velocity is compared with a long-double direct sum; far "
        "cells widen the tolerance only by a rigorous bound of their truncation error computed from the elements. Every case is non-trivial.")


def run(ctx):
    exe = core.build_harness("c06", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
