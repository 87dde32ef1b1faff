import math

from mc import core, sim, stepref, stepruns

RULE = ("Every combination of 5 flows, 10 contents (vortices that merge, enter bodies or are too faint, markers, sinks), 22 sets of bodies "
        "(none, fixed, slipping in part, moving, spinning, free, elastic, roots and chains, limits, an outer wall) and three starts "
        "is simulated by vvflow, saving every step (thorough: 20 steps, also finer and many bodies). From each snapshot a reference (direct sums, one pass "
        "per element) computes the next: shed vortices, merging, core sizes, velocities by the flow, sinks, walls and diffusion, friction, motion of all "
        "elements and bodies, what is removed and where it is accounted for; the next snapshot must hold exactly that, the first one what the "
        "script prepared. Circulation of flow, walls and turning bodies never changes and is the prescribed one; at every "
        "snapshot the forces of flow and holders balance the momentum, holders act as told or as springs, and bodies too heavy for the flow bounce as told. Steps in which a decision hangs on rounding are left "
        "out and counted. Non-trivial: a step that was compared.")
TOL = 1e-9


def near(a, b, scale=1.0, tol=TOL):
    if isinstance(a, tuple):
        return all(near(x, y, scale, tol) for x, y in zip(a, b))
    if isinstance(a, complex) or isinstance(b, complex):
        return abs(a - b) <= tol * (scale + abs(a))
    if math.isnan(a) or math.isinf(a):
        return a == b or math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * (scale + abs(a))


def differs(want, got, solved):
    """First difference of the computed state and the file; solved: before the solution of the next step is known"""
    for n, w, g in (("vortices", want.V, got.V), ("heat", want.H, got.H), ("markers", want.ink, got.ink), ("marker sources", want.ink_source, got.ink_source), ("sinks", want.sinks, got.sinks)):
        if len(w) != len(g):
            return n, "%d expected, %d in the file" % (len(w), len(g))
        for i, (x, y) in enumerate(zip(w, g)):
            if not near(x[0], y[0]) or not near(x[1], y[1]):
                return n, "no. %d is %r, expected %r" % (i, y, x)
            if n in ("vortices", "heat") and not near(x[2] / max(x[2], 1e-300), y[2] / max(x[2], 1e-300)):
                return n + "-core", "no. %d is %r, expected %r" % (i, y, x)
    if not near(want.marker, got.marker):
        return "flow-marker", "%r, expected %r" % (got.marker, want.marker)
    if len(want.bodies) != len(got.bodies):
        return "bodies", "%d of %d" % (len(got.bodies), len(want.bodies))
    for w, g in zip(want.bodies, got.bodies):
        for k in ("holder_position", "delta_position", "fdt_dead", "g_dead", "friction_prev") + (("speed_slae_prev", "collision_state") if solved else ()):
            x, y = getattr(w, k), getattr(g, k)
            if not near(x, y):
                return k, "%s: %r, expected %r" % (w.name, y, x)
        for i, (x, y) in enumerate(zip(w.segs, g.segs)):
            for k in ("c", "gsum", "fric") if solved else ("c",):
                if not near(getattr(x, k), getattr(y, k)):
                    return {"c": "corner", "gsum": "gsum", "fric": "fric"}[k], "%s segment %d: %r, expected %r" % (w.name, i, getattr(y, k), getattr(x, k))
    return None


def judge(name, files, count):
    start, snaps, _, sens = files
    bad = []
    # the problem as it was prepared
    s = stepref.read(start)
    viscous = s.re != math.inf
    n = [len(b.segs) for b in s.bodies]
    dl0 = sum(abs(q.dl) for b in s.bodies for q in b.segs) / sum(n) if n else 0
    prev_c, prev = None, None
    for k, f in enumerate(snaps):
        g = stepref.read(f)
        if stepref.wild(g):
            # the step that led here has been compared
            count("run away")
            break
        if k == 0 and snaps and (g.time == s.time):
            try:
                if stepref.single_cell(s, dl0):
                    if any(o[1] and not o[2] for o in s.V):
                        stepref.cores(s, False)
                    d = differs(s, g, False)
                    if d:
                        bad.append(("start:" + d[0], "step %d: %s" % (k, d[1])))
                    count("start")
                else:
                    count("start in several cells")
            except stepref.Ambiguous as e:
                count("on rounding (%s)" % e)
        c = stepref.circulation(g)
        if prev_c is not None and not near(prev_c, c, 1, 1e-7):
            bad.append(("circulation", "step %d: %r after %r" % (k, c, prev_c)))
        prev_c = c
        for what, body, x, y, scale in stepref.laws(g):
            if not abs(x - y) <= 1e-8 * scale:
                bad.append(("law:" + what, "step %d, %s: %r and %r" % (k, body, x, y)))
        count("under laws")
        for b, before in zip(g.bodies, prev.bodies if prev else []):
            if b.collision_state and b.density >= 1e5:
                i = b.collision_state - 1
                x, y = [(v[0].real, v[0].imag, v[1])[i] for v in (b.speed_slae, before.speed_slae)]
                y += g.h * (g.gravity.real, g.gravity.imag, 0)[i]
                if not abs(x + b.bounce * y) <= 5e-3 * (0.1 + abs(y)):
                    bad.append(("bounce-" + "xyo"[i], "step %d, %s: speed %r after %r" % (k, b.name, x, y)))
                count("with bounce-" + "xyo"[i])
        prev = g
        if k + 1 >= len(snaps):
            break
        nxt = stepref.read(snaps[k + 1])
        stepref.shed(g)
        if not stepref.single_cell(g, dl0):
            count("in several cells")
            continue
        stepref.row(g)
        try:
            # the sensors see the flow before it moves, with the cores of this step
            at = stepref.read(f)
            stepref.shed(at)
            stepref.cores(at, viscous)
            line = [l for l in sens if abs(l[0] - g.t) < 1e-5 * (1 + abs(g.t))]
            pts = [complex(*map(float, l.split())) for l in stepruns.FILES["sensors"].splitlines()]
            want = [x for p in pts for v in [stepref.velocity(at, p)] for x in (v.real, v.imag)]
            if len(line) != 1 or not all(near(x, y, 1e-3, 2e-5) for x, y in zip(want, line[0][1:])):
                bad.append(("sensors", "step %d: %r, expected %r" % (k, line, want)))
            did = stepref.step(g, viscous)
        except stepref.Ambiguous as e:
            count("on rounding (%s)" % e)
            continue
        for x, y in did.items():
            if y:
                count("with " + x)
        count("compared")
        d = differs(g, nxt, True)
        if d:
            bad.append(("step:" + d[0], "step %d to %d: %s" % (k, k + 1, d[1])))
            break
        if not near(nxt.t, g.t_next):
            bad.append(("time", "%r after %r" % (nxt.time, g.time)))
    return bad


def run(ctx, judge=judge, rule=RULE, table=stepruns.table):
    t = sim.Tools()
    names = list(table(ctx.thorough))
    if ctx.replay_only is not None:
        names = [n for n in names if ctx.replay_only.split("@")[-1] == n]

    def one(name):
        counts = {}

        def count(w):
            counts[w] = counts.get(w, 0) + 1
        files = stepruns.run_one(ctx, t, name)
        if isinstance(files, str):
            return [("fails", files)], counts
        return judge(name, files, count), counts
    for name, (bad, counts) in zip(names, stepruns.fork_map(one, names)):
        for k, d in bad:
            ctx.violation("%s@%s" % (k, name), d, {"case": "%s@%s" % (k, name)})
        for k, n in counts.items():
            ctx.outcome("steps " + k, n)
        ctx.evaluations += sum(n for k, n in counts.items() if not k.startswith("with "))
        ctx.nontrivial += counts.get("compared", 0)
        ctx.sample(name, 6)
    ctx.rule = rule
