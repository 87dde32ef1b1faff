"""A reference for one step of the method, over the files a simulation leaves.

The state is what snapshot k holds (the surface sheet has just been solved for); step()
gives what snapshot k+1 has to hold, apart from the new solution.  Everything is a direct
sum; points are complex numbers, so that i*z is the perpendicular of z.
It applies while the search tree is a single cell (single_cell), which the problems of
C27 and C28 are made for.
"""
import cmath
import math
import re as regex

REMOVE = 1e-10
PI = math.pi
TINY = 2.2250738585072014e-308  # a lone element's core


def dot(a, b):
    return a.real * b.real + a.imag * b.imag


def sign(x):
    return (x > 0) - (x < 0)


_FUN = dict(sin=math.sin, cos=math.cos, exp=math.exp, sqrt=math.sqrt, pi=math.pi, abs=abs)


def expr(text, t):
    if not text:
        return 0.0
    return float(eval(text.replace("^", "**"), {"__builtins__": {}}, dict(_FUN, t=t)))


class Seg:
    __slots__ = ("c", "g", "gsum", "slip", "fric", "r", "dl")


class Body:
    pass


class State:
    pass


def wild(s):
    """a run-away: nothing but rounding is left of the body or the flow"""
    far = [abs(q.c) for b in s.bodies for q in b.segs] + [abs(o[0]) for o in s.V] + [abs(b.speed_slae[0]) + abs(b.speed_slae[1]) for b in s.bodies]
    return not all(x < 1e4 for x in far)


def vec3(a):
    return (complex(a[0], a[1]), a[2])


def read(d):
    """From a parsed snapshot"""
    s, a, sets = State(), d["attrs"], d["sets"]
    s.time, s.dt = a["time"], a["dt"]
    s.t = s.time[0] / s.time[1]
    s.h = s.dt[0] / s.dt[1]
    s.dt_streak = a["dt_streak"]
    s.re, s.pr = a["re"], a["pr"]
    s.marker = complex(*a["inf_marker"])
    s.inf_g, s.gravity = a["inf_circulation"], complex(*a["gravity"])
    s.vx, s.vy = a.get("inf_speed_x", ""), a.get("inf_speed_y", "")

    def objs(name):
        eps = sets.get(name + "_1_eps", {"rows": []})["rows"]
        return [[complex(r[0], r[1]), r[2], eps[i][0] if i < len(eps) else 0.0] for i, r in enumerate(sets.get(name, {"rows": []})["rows"])]
    s.V, s.H, s.ink, s.ink_source, s.sinks = objs("vort"), objs("heat"), objs("ink"), objs("ink_source"), objs("source")
    s.bodies = []
    for n in sorted((n for n in sets if regex.match(r"body\d+$", n)), key=lambda n: int(n[4:])):
        x, b = sets[n], Body()
        at = x["attrs"]
        b.name, b.attrs = n, at
        slip = at.get("slip") or [at.get("general_slip", 0)] * len(x["rows"])
        fric = sets.get("fric_" + n, {"rows": [[0.0]] * len(x["rows"])})["rows"]
        b.segs = []
        for r, sl, fr in zip(x["rows"], slip, fric):
            q = Seg()
            q.c, q.g, q.gsum, q.slip, q.fric = complex(r[0], r[1]), r[2], r[3], sl, fr[0]
            b.segs.append(q)
        for k in ("holder_position", "delta_position", "speed_slae", "speed_slae_prev", "force_hydro", "force_holder", "friction_prev",
                  "fdt_dead", "spring_const", "spring_damping", "collision_min", "collision_max"):
            setattr(b, k, vec3(at[k]))
        b.g_dead, b.density, b.bounce = at["g_dead"], at["density"], at["bounce"]
        b.special, b.kutta = at["special_segment_no"], at["boundary_condition"] == 1
        b.collision_state = at.get("collision_state", 0)
        b.root = at.get("root_body") or None
        b.sx, b.sy, b.so, b.mo = at.get("speed_x", ""), at.get("speed_y", ""), at.get("speed_o", ""), at.get("force_o", "")
        s.bodies.append(b)
        geometry(b)
    return s


def geometry(b):
    n = len(b.segs)
    b.area = 0.0
    for i, q in enumerate(b.segs):
        nx = b.segs[(i + 1) % n].c
        q.dl, q.r = nx - q.c, (nx + q.c) / 2
        b.area += q.r.imag * q.dl.real
    b.axis = b.holder_position[0] + b.delta_position[0]


def inside(b, p):
    """None on the contour, else whether the point is where no flow can be"""
    odd = False
    n = len(b.segs)
    for i in range(n):
        a, c = b.segs[i].c, b.segs[(i + 1) % n].c
        d = c - a
        u = 0 if not d else max(0, min(1, dot(p - a, d) / dot(d, d)))
        if abs(p - a - u * d) < 1e-7:
            return None
        if (a.imag > p.imag) != (c.imag > p.imag) and p.real < a.real + (p.imag - a.imag) * d.real / d.imag:
            odd = not odd
    return odd != (b.area <= 0)


def box(s):
    pts = [o[0] for o in s.V + s.H + s.ink] + [q.r for b in s.bodies for q in b.segs]
    if not pts:
        return None
    x, y = [p.real for p in pts], [p.imag for p in pts]
    return (min(x) + max(x)) / 2, (min(y) + max(y)) / 2, max(x) - min(x), max(y) - min(y)


def single_cell(s, dl0):
    """Whether all elements are neighbours in the tree (before shedding is not enough: give the shed state)"""
    b = box(s)
    if b is None:
        return True
    _, _, w, h = b
    lo, hi = (5 * dl0, 100 * dl0) if dl0 else (0, math.inf)
    if max(w, h) >= hi:
        return False
    return min(w, h) <= lo * (1 - 1e-9) or max(len(s.V), len(s.H), len(s.ink), sum(len(b.segs) for b in s.bodies)) < 16


class Ambiguous(Exception):
    """A decision hangs on rounding"""


def nearest(o, lst):
    """The two nearest among the elements that count: (distance^2, element) or None"""
    c = sorted(((abs(o[0] - x[0]) ** 2, i) for i, x in enumerate(lst) if x is not o and x[1]))
    return c[:3]


def cores(s, merge):
    """Sizes of the cores, merging"""
    b = box(s)
    if b is None:
        return 0
    centre = complex(b[0], b[1])
    segs = [q for bd in s.bodies for q in bd.segs]
    crit, low = (0.0 if merge else math.nan), 1e-100
    if segs:
        d = sorted((abs(centre - q.r), abs(q.dl)) for q in segs)
        if len(d) > 1 and d[1][0] - d[0][0] < 1e-9 and abs(d[1][1] - d[0][1]) > 1e-9:
            raise Ambiguous(1)
        low = d[0][1] / 3
        if merge:
            crit = 0.16 * d[0][1] ** 2 * (1 + d[0][0])
    merged = 0

    def join(o, x):
        if sign(o[1]) == sign(x[1]):
            o[0] = (o[0] * o[1] + x[0] * x[1]) / (o[1] + x[1])
        elif abs(o[1]) < abs(x[1]):
            o[0] = x[0]
        o[1] += x[1]
        x[1] = 0.0

    for lst, vort in ((s.V, True), (s.H, False)):
        for o in lst:
            if not o[1]:
                continue
            n = nearest(o, lst)
            if merge and len(n) > 1:
                # equally near, up to rounding: whichever comes first; it matters only if something depends on which
                signs = [sign(lst[x[1]][1]) for x in n]
                if n[1][0] - n[0][0] < 1e-9 * n[0][0] and (n[0][0] < crit or vort and set(signs) != {sign(o[1])}):
                    raise Ambiguous(2)
                if len(n) > 2 and n[2][0] - n[1][0] < 1e-9 * n[1][0] and vort and signs[1] != signs[2]:
                    raise Ambiguous(2)
                if abs(n[0][0] - crit) < 1e-9 * crit:
                    raise Ambiguous(3)
                x, y = lst[n[0][1]], lst[n[1][1]]
                if n[0][0] < crit or vort and sign(x[1]) == sign(y[1]) != sign(o[1]):
                    join(o, x)
                    merged += 1
                    n = nearest(o, lst)
            e = TINY if not n else math.sqrt(n[min(1, len(n) - 1)][0])
            o[2] = 1 / max(e, low)
    return merged


def linear_source(p, q, q1, q2):
    z1, z2, dz = p - (q.r - q.dl / 2), p - (q.r + q.dl / 2), q.dl
    return ((q1 - q2) - (q2 * z1 - q1 * z2).conjugate() / dz.conjugate() * cmath.log(z2.conjugate() / z1.conjugate())) / dz.conjugate()


def velocity(s, p):
    v = 0j
    for z, g, e in s.V:
        if g:
            d = p - z
            v += 1j * d * g / (abs(d) ** 2 + e ** -2)
    for z, g, _ in s.sinks:
        d = p - z
        v += d * (g / (abs(d) ** 2 + s.h / PI * abs(g)))
    for b in s.bodies:
        for q in b.segs:
            if q.slip:
                d = p - q.r
                v += 1j * d * q.g / (abs(d) ** 2 + abs(q.dl) ** 2 / 9)
        u, o = b.speed_slae
        if not u and not o:
            continue
        for q in b.segs:
            d = p - q.r
            if abs(abs(d) - abs(q.dl)) < 1e-9 * abs(q.dl):
                raise Ambiguous(4)
            if abs(d) < abs(q.dl):
                v1 = u + o * 1j * (q.c - b.axis)
                v2 = u + o * 1j * (q.c + q.dl - b.axis)
                v += 1j * linear_source(p, q, -dot(v1, q.dl), -dot(v2, q.dl))
                v += linear_source(p, q, -dot(1j * v1, q.dl), -dot(1j * v2, q.dl))
            else:
                w = u + o * 1j * (q.r - b.axis)
                v += (d * -dot(1j * w, q.dl) + 1j * d * -dot(w, q.dl)) / abs(d) ** 2
    return v / (2 * PI) + inf_speed(s)


def inf_speed(s):
    return complex(expr(s.vx, s.t), expr(s.vy, s.t))


def diffusion(s, lst, heat):
    """Velocities by diffusion; friction of the walls grows when they are vortices"""
    segs = [q for b in s.bodies for q in b.segs]
    out = []
    for o in lst:
        z, g, e = o
        if not g:
            out.append(0j)
            continue
        s2, s1, s3, s0 = 0j, 0.0, 0j, 0.0
        for x in lst:
            if sign(x[1]) != sign(g) or x[0] == z:
                continue
            d = abs(z - x[0])
            if abs(d * e - 8) < 1e-9:
                raise Ambiguous(5)
            if d * e > 8:
                continue
            w = x[1] * math.exp(-d * e)
            s2 += (z - x[0]) * (w / d)
            s1 += w
        for q in segs:
            d = abs(z - q.r)
            if abs(d * e - 8) < 1e-9:
                raise Ambiguous(6)
            if d * e > 8:
                continue
            w = math.exp(-d * e)
            n = 1j * q.dl
            s3 += n * w
            s0 += (d * e + 1) / d ** 2 * dot(z - q.r, n) * w
            if not heat:
                q.fric += e * e * g * w * abs(q.dl)
        if sign(s1) != sign(g) or abs(s1) < abs(0.1 * g):
            s1 = 0.1 * g
        if heat:
            out.append((e * s2 + s3) / (s1 + s0 / e ** 2) / (s.pr * s.re))
        else:
            out.append(e / (s.re * s1) * s2 + e * e / (s.re * (2 * PI - min(s0, PI))) * s3)
    return out


def shed(s):
    for b in s.bodies:
        for q in b.segs:
            q.gsum += q.g
            if abs(q.g) >= REMOVE and not q.slip:
                s.V.append([q.c + 1j * q.dl * 1e-4, q.g, 0.0])
    n, d = s.dt_streak
    if n and d and (s.time[0] * d) % (n * s.time[1]) == 0:
        s.ink += [list(x) for x in s.ink_source]


def row(s):
    """The record of the step, of the state with the sheet added to gsum: {dataset: values}"""
    out = {"time": [s.t]}
    nu = 1 / (PI * s.re)
    for b in s.bodies:
        def put(name, v):
            out[b.name + "/" + name] = [v[0].real, v[0].imag, v[1]]
        put("force_hydro", b.force_hydro)
        put("force_holder", b.force_holder)
        put("holder_position", b.holder_position)
        put("delta_position", b.delta_position)
        put("speed_slae", b.speed_slae)
        fr = [-q.dl * (q.fric * nu / abs(q.dl)) for q in b.segs]
        b.friction = (sum(fr, 0j), sum(dot(1j * (q.r - b.axis), f) for q, f in zip(b.segs, fr)))
        put("force_friction", b.friction)
        p, pr = 0.0, []
        for q in b.segs:
            p += q.gsum
            pr.append(p / s.h)
        out[b.name + "/pressure"] = pr
        out[b.name + "/friction"] = [q.fric * nu for q in b.segs]
    return out


def step(s, viscous):
    """From the shed state to the next; the new solution is not known.  Gives what happened."""
    did = dict(merged=0, removed=0, collision=0)
    for b in s.bodies:
        for q in b.segs:
            q.gsum = q.fric = 0.0
        b.friction_prev, b.fdt_dead, b.g_dead = b.friction, (0j, 0.0), 0.0
    did["merged"] = cores(s, viscous)
    vel = [[velocity(s, o[0]) if o[1] or lst is s.ink else 0j for o in lst] for lst in (s.V, s.H, s.ink)]
    if viscous:
        for k, lst in ((0, s.V), (1, s.H)):
            for i, v in enumerate(diffusion(s, lst, k == 1)):
                vel[k][i] += v
    # the step ends where the first body reaches a limit
    cdt, hit = s.h, None
    for b in s.bodies:
        def comp(v):
            return v[0].real, v[0].imag, v[1]
        for i, (h, d, v, k, lo, hi) in enumerate(zip(*[comp(x) for x in (b.holder_position, b.delta_position, b.speed_slae, b.spring_const, b.collision_min, b.collision_max)])):
            if not (k >= 0 and math.isfinite(k)):
                continue
            x0, x1 = h + d, h + d + s.h * v
            lim = hi if x1 > hi and x1 > x0 else lo if x1 < lo and x1 < x0 else None
            for l in (hi, lo):
                if abs(x1 - l) < 1e-9 * (1 + abs(l)):
                    raise Ambiguous(7)
            if lim is not None:
                t = max(0.0, (lim - x0) / v)
                if hit and abs(t - cdt) < 1e-9:
                    raise Ambiguous(8)
                if t < cdt:
                    cdt, hit = t, (b, i + 1)
    did["collision"] = 1 if hit else 0
    s.marker += inf_speed(s) * cdt
    moves = []
    by_name = {b.name: b for b in s.bodies}
    for b in s.bodies:
        hol = [complex(expr(b.sx, s.t), expr(b.sy, s.t)), expr(b.so, s.t)]
        root = by_name.get(b.root)
        if root:
            hol[0] += root.speed_slae[0] + 1j * (b.holder_position[0] - root.axis) * root.speed_slae[1]
            hol[1] += root.speed_slae[1]
        hol = [x * cdt for x in hol]
        bod = [x * cdt for x in b.speed_slae]
        child = b
        while root:
            d, a = child.holder_position[0] - root.axis, root.speed_slae[1] * cdt
            err = d + 1j * d * a - d * cmath.exp(1j * a)
            hol[0] -= err
            bod[0] -= err
            child, root = root, by_name.get(root.root)
        moves.append((hol, bod))
    for b, (hol, bod) in zip(s.bodies, moves):
        turn = cmath.exp(1j * bod[1])
        for q in b.segs:
            q.c = b.axis + bod[0] + (q.c - b.axis) * turn
        b.holder_position = (b.holder_position[0] + hol[0], b.holder_position[1] + hol[1])
        b.delta_position = (b.delta_position[0] + bod[0] - hol[0], b.delta_position[1] + bod[1] - hol[1])
        b.speed_slae_prev = b.speed_slae
        b.collision_state = hit[1] if hit and hit[0] is b else 0
        geometry(b)
    for lst, vs in zip((s.V, s.H, s.ink), vel):
        for o, v in zip(lst, vs):
            o[0] += v * cdt
    for lst in (s.V, s.H):
        for o in lst:
            if o[1] and abs(abs(o[1]) - REMOVE) < 1e-15:
                raise Ambiguous(9)
        lst[:] = [o for o in lst if abs(o[1]) >= REMOVE]

    def place(z):
        for b in s.bodies:
            i = inside(b, z)
            if i is None:
                raise Ambiguous(10)
            if i:
                return b
        return None
    keep = []
    for o in s.V:
        b = place(o[0])
        if b is None:
            keep.append(o)
            continue
        d = sorted((abs(q.r - o[0]), i) for i, q in enumerate(b.segs))
        if d[1][0] - d[0][0] < 1e-9:
            raise Ambiguous(11)
        b.fdt_dead = (b.fdt_dead[0] + 1j * o[0] * o[1], b.fdt_dead[1] + abs(o[0] - b.axis) ** 2 * o[1])
        b.segs[d[0][1]].gsum -= o[1]
        b.g_dead += o[1]
        did["removed"] += 1
    s.V[:] = keep
    s.H[:] = [o for o in s.H if place(o[0]) is None and o[0].real <= 16]
    s.ink[:] = [o for o in s.ink if place(o[0]) is None]
    for b in s.bodies:
        for q in b.segs:
            if abs(q.g) < REMOVE or q.slip:
                b.fdt_dead = (b.fdt_dead[0] + 1j * q.c * q.g, b.fdt_dead[1] + abs(q.c - b.axis) ** 2 * q.g)
                q.gsum -= q.g
                b.g_dead += q.g
    s.t_next = s.t + s.h
    return did


def circulation(s):
    """Of the flow, its surfaces and the turning bodies: it never changes"""
    return sum(o[1] for o in s.V) + sum(q.g for b in s.bodies for q in b.segs) + sum(2 * b.area * b.speed_slae[1] for b in s.bodies)


def mass(b):
    """Centre and moment of inertia about the axis, of unit density"""
    m, j = 0j, 0.0
    for q in b.segs:
        x, y = q.c - b.axis, q.c + q.dl - b.axis
        w = dot(x, 1j * y) / 2
        m += (x + y) * w / 3
        j += w * (abs(x) ** 2 + dot(x, y) + abs(y) ** 2) / 6
    return m / b.area, j


def laws(s):
    """Residuals of the laws the solution at a snapshot obeys: [(law, body, left, right, scale)]"""
    out = []
    if not s.bodies:
        return out
    i = 1j
    by_name = {b.name: b for b in s.bodies}
    pending = any(b.collision_state for b in s.bodies)

    def law(what, b, left, right, *terms):
        out.append((what, b.name, left, right, max([abs(x) for x in terms] + [abs(left), abs(right), 1e-3])))
    steady = [b for b in s.bodies if not b.kutta]
    if steady:
        law("circulation-at-infinity", steady[0], circulation(s), -s.inf_g, *[o[1] for o in s.V])
    for b in s.bodies:
        v, o = b.speed_slae
        vp, op = b.speed_slae_prev
        g = sum(q.g for q in b.segs)
        if b.kutta:
            law("kutta", b, b.segs[b.special].g, 0.0)
        elif b is not steady[0]:
            law("circulation-of-body", b, g + 2 * b.area * o, b.g_dead + 2 * b.area * op)
        rc, j = mass(b)
        c = b.axis + rc
        # the force of the flow: the rate of the momentum its vortices have, of the walls and of the body's place
        f = (sum((i * q.c * q.g for q in b.segs), 0j) - b.fdt_dead[0]) / s.h + b.friction_prev[0] \
            + b.area * ((v - vp) / s.h + i * (2 * c + rc) * (o - op) / s.h - op ** 2 * rc)
        law("force-of-flow", b, b.force_hydro[0], f, f)
        m = (sum(abs(q.c - b.axis) ** 2 * q.g for q in b.segs) - b.fdt_dead[1]) / (2 * s.h) + b.friction_prev[1] \
            + b.area / s.h * dot(i * rc, v - vp) + 2 * j / s.h * (o - op)
        law("moment-of-flow", b, b.force_hydro[1], m, m)
        # Newton
        big = (1 + b.density) * abs(b.area) / s.h * (abs(v) + abs(vp) + abs(o) + abs(op) + s.h)
        f = b.force_hydro[0] - b.force_holder[0] + sum(x.force_holder[0] for x in s.bodies if x.root == b.name) + (b.density - 1) * s.gravity * b.area
        a = b.density * b.area * ((v - vp) / s.h + i * rc * (o - op) / s.h - op ** 2 * rc)
        law("momentum", b, f, a, big, b.force_hydro[0], b.force_holder[0])
        m = b.force_hydro[1] - b.force_holder[1] + (b.density - 1) * b.area * dot(i * rc, s.gravity) \
            + sum(x.force_holder[1] + dot(i * (x.axis - b.axis), x.force_holder[0]) for x in s.bodies if x.root == b.name)
        a = b.density * (b.area * dot(i * rc, v - vp) + j * (o - op)) / s.h
        law("angular-momentum", b, m, a, big, b.force_hydro[1], b.force_holder[1])
        # the holder: moves the body as told, or is a spring
        r = by_name.get(b.root)
        told = complex(expr(b.sx, s.t), expr(b.sy, s.t)), expr(b.so, s.t)
        if r:
            told = told[0] + r.speed_slae[0] + i * (b.axis - r.axis) * r.speed_slae[1], told[1] + r.speed_slae[1]
        for n, k, x, y, d, fh, p, mo in (
                ("x", b.spring_const[0].real, v.real, told[0].real, b.delta_position[0].real, b.force_holder[0].real, b.spring_damping[0].real, 0.0),
                ("y", b.spring_const[0].imag, v.imag, told[0].imag, b.delta_position[0].imag, b.force_holder[0].imag, b.spring_damping[0].imag, 0.0),
                ("o", b.spring_const[1], o, told[1], b.delta_position[1], b.force_holder[1], b.spring_damping[1], expr(b.mo, s.t))):
            if not (k >= 0 and math.isfinite(k)) or not s.t > 0:
                law("told-" + n, b, x, y)
            elif not (b.collision_state and n == "xyo"[b.collision_state - 1]):
                law("spring-" + n, b, fh, k * d + p * x + mo)
    return out
