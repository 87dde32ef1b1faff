from mc import core

RULE = ("Every simple polygon with 3..6 corners on a 3x3 lattice and 4..5 on a 4x3 lattice (thorough: 7 on 3x3, 5 on 4x4), both "
        "orientations, against all points of a fine grid that includes the eye levels of corners and edges, decided in exact integer arithmetic; "
        "every history of 3 (4) operations {move, rotate, both, copy, assign both ways, swap, edit} on two bodies of 4 shapes, both judged "
        "after every operation at 169 points for the wall and the thermal layer by the winding angle. Non-trivial: polygons / points compared.")


def run(ctx):
    exe = core.build_harness("c09", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
