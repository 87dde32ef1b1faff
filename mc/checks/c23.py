from mc import core

RULE = ("Explicit exploration of the motion step of the real code: every tree of roots of three bodies with every "
        "kind of own motion, every pattern of elastic components and deflections (three steps each), every "
        "combination of limits and speeds of one body, pairs of bodies with limits in every order, and whole "
        "motions with the solver between limits; each transition is compared with the laws of motion computed "
        "independently (holder, deflection, contour, flow markers, earliest collision, bounce). A case counts as "
        "non-trivial when a body moves or collides.")


def run(ctx):
    exe = core.build_harness("c23", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
