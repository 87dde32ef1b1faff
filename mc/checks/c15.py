from mc import core

RULE = (
    "all flows of the table (no body, one, two, a vessel around the fluid, a half-slip body; still, moving, turning; nine arrangements of vortices "
    "with gaps, coincident and wide ones; sinks in corners of cells and far; none, constant and time-dependent stream) x grids x reference frames: "
    "every cell of velocity, vorticity, streamfunction and pressure compared with direct sums in long double within the multipole bound of "
    "the far aggregates, zero inside bodies, gaps behind sinks; every sub-rectangle of the table equal to the whole; every order of two fields "
    "equal to each alone; the flow unchanged. All value arrays over a small alphabet on small grids: extremes, percentiles, storage; "
    "all grids of a table and all malformed stored data: read back equal or refused; all arguments.")


def run(ctx):
    exe = core.build_harness("c15", "asan")
    ctx.run_harness(exe, ["small"], timeout=850 if not ctx.thorough else 5000)
    exe = core.build_harness("c15", "plain")
    ctx.run_harness(exe, ["flows"], timeout=850 if not ctx.thorough else 5000)
    ctx.rule = RULE
