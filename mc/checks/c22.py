from mc import core

RULE = ("Every combination in the families one (shape x springs of three components x damping, density, "
        "boundary condition, forces), many (two and three bodies, every tree of roots, every pattern of elastic "
        "components), collision (each component at its limit, restitution) and steps (several consecutive steps) "
        "is built, the circulation and speeds are solved by the code, and the residuals of the slip, circulation, "
        "fluid force, Newton, Hooke and rigidity equations written down independently are evaluated at the result. "
        "The enumeration is complete within the tables of the harness; a case counts as non-trivial when the "
        "solution moves or bears circulation.")


def run(ctx):
    exe = core.build_harness("c22", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
