import bisect
import itertools
import math
import os

from mc import core, sim

RULE = ("Every generator with (a) every combination of the value tables of its parameters, with N and with dl, coarse to fine, and (b) every "
        "combination of wrong, missing and extra parameters (up to two at once, all at once for the small generators; numbers out of range, NaN, "
        "infinities, strings, tables, truth values). Each call is made twice with the same table. Oracle: the described contour as a list of "
        "straight and circular pieces; every vertex lies on its piece at an even distance, every corner is a vertex, the number of segments "
        "of each piece is its length over dl rounded, the contour is simple and clockwise, slip holds on the described pieces only; or an error "
        "that names the (or a) wrong parameter. Where the polygon of that number of segments would cross itself an error is required, where a piece "
        "is shorter than half a segment both are accepted. Non-trivial: bodies generated.")

PI = math.pi


# ---------------------------------------------------------------- described shapes: pieces (kind, length, point(s), dl, slip)
def seg(p, q, dl, slip=0, most=None):
    return (math.hypot(q[0] - p[0], q[1] - p[1]), lambda s: (p[0] + (q[0] - p[0]) * s, p[1] + (q[1] - p[1]) * s), dl, slip, most)


def arc(c, r, a, b, dl, slip=0):
    return (r * abs(b - a), lambda s: (c[0] + r * math.cos(a + (b - a) * s), c[1] + r * math.sin(a + (b - a) * s)), dl, slip, None)


def step(p, total):
    return p["dl"] if "dl" in p else total / p["N"]


def cylinder(p):
    return [arc((0, 0), p["R"], 2 * PI, 0, step(p, 2 * PI * p["R"]))]


def semicyl(p):
    R = p["R"]
    d = step(p, PI * R + 2 * R)
    return [seg((0, 0), (R, 0), d), arc((0, 0), R, 0, -PI, d), seg((-R, 0), (0, 0), d)]


def parallelogram(p):
    L, H, a = p["L"], p["H"], p["d"] * PI / 180
    d, x = step(p, 2 * (L + H / math.sin(a))), H / math.tan(a)
    return [seg((L, 0), (0, 0), d), seg((0, 0), (x, H), d), seg((x, H), (L + x, H), d), seg((L + x, H), (L, 0), d)]


def savonius(p):
    R, h = p["R"], p["h"] / 2
    d = step(p, PI * (4 * R + 2 * h))
    return [arc((R, 0), R - h, PI, 2 * PI, d), arc((2 * R, 0), h, PI, 0, d), arc((R, 0), R + h, 2 * PI, PI, d),
            arc((-R, 0), R - h, 0, PI, d), arc((-2 * R, 0), h, 2 * PI, PI, d), arc((-R, 0), R + h, PI, 0, d)]


def plate(p):
    R1, R2, L = p["R1"], p["R2"], p["L"]
    al = math.asin((R2 - R1) / L)
    phi = PI / 2 + al
    d = step(p, 2 * ((PI - phi) * R1 + phi * R2 + L * math.cos(al)))
    a, b = p.get("start", 0), p.get("stop", 1)
    r1, r2, c1, c2 = R1 + a * (R2 - R1), R1 + b * (R2 - R1), (a * L, 0), (b * L, 0)
    if b == 1:
        f1, f2 = 0, phi
    else:
        # the joint is concave and wider by the gap
        g = max(d, p.get("gap", 0))
        f1, f2 = PI, phi + math.acos(r2 / (r2 + g))
        r2 += g

    def pt(c, r, f, s):
        return (c[0] + r * math.cos(f), c[1] + s * r * math.sin(f))
    j1, j2 = int(a > 0), int(b < 1)
    return [arc(c2, r2, -f1, -f2, d, j2), seg(pt(c2, r2, f2, -1), pt(c1, r1, phi, -1), d), arc(c1, r1, 2 * PI - phi, PI, d, j1),
            arc(c1, r1, PI, phi, d, j1), seg(pt(c1, r1, phi, 1), pt(c2, r2, f2, 1), d), arc(c2, r2, f2, f1, d, j2)]


def gpj(p):
    R, X0, X1, X2, X3, n, s = p["R0"], p["X0"], p["X1"], p["X2"], p["X3"], p["dln"], p["dls"]
    Y3, X4, Y4 = R + (X3 - X2) * math.tan(p["d"] * PI / 180), X3 - p["L"], p["H"] / 2
    return [seg((X4, -Y4), (X4, Y4), s, 1), seg((X4, Y4), (X3, Y4), s, 1), seg((X3, Y4), (X3, Y3), s, 1, 5), seg((X3, Y3), (X2, R), n), seg((X2, R), (X1, R), n),
            seg((X1, R), (X0, R), s, 1), arc((X0, 0), R, PI / 2, PI * 3 / 2, s, 1), seg((X0, -R), (X1, -R), s, 1), seg((X1, -R), (X2, -R), n),
            seg((X2, -R), (X3, -Y3), n), seg((X3, -Y3), (X3, -Y4), s, 1, 5), seg((X3, -Y4), (X4, -Y4), s, 1)]


def box(p):
    L, H, D, h, d, n, s = p["L"] / 2, p["H"], p["D"] / 2 + p["d"] / 2, p["h"], p["d"], p["dln"], p["dls"]
    return [seg((0, H), (-L, H), s, 1), seg((-L, H), (-L, 0), s, 1), seg((-L, 0), (-D, 0), n), arc((-D, -d / 2), d / 2, PI / 2, 0, n), arc((-D, -d / 2), d / 2, 0, -PI / 2, n),
            seg((-D, -d), (-L - h, -d), s, 1), seg((-L - h, -d), (-L - h, H + h), s, 1), seg((-L - h, H + h), (L + h, H + h), s, 1), seg((L + h, H + h), (L + h, -d), s, 1),
            seg((L + h, -d), (D, -d), s, 1), arc((D, -d / 2), d / 2, PI * 3 / 2, PI, n), arc((D, -d / 2), d / 2, PI, PI / 2, n), seg((D, 0), (L, 0), n), seg((L, 0), (L, H), s, 1),
            seg((L, H), (0, H), s, 1)]


# ---------------------------------------------------------------- parameters: name -> (good values, wrong values)
POS = ["0", "-1", "-1e-300"]
TYPES = ["nan", "inf", "-inf", "{0}", "'abc'", "true", "print"]
N_ = ["0", "-1", "-1e9"]
SPEC = {
    "gen_cylinder": (cylinder, {"R": POS}, [{"R": r} for r in (0.5, 1, 3.75, 1e-3, 1e3)]),
    "gen_semicyl": (semicyl, {"R": POS}, [{"R": r} for r in (0.5, 1, 3.75, 1e-3, 1e3)]),
    "gen_ellipse": (None, {"Rx": POS, "Ry": POS + ["1e9"]}, [{"Rx": x, "Ry": x * k} for x in (1, 4, 1e-2) for k in (1, 0.8, 0.5, 0.25, 0.1)]),
    "gen_parallelogram": (parallelogram, {"L": POS, "H": POS, "d": POS + ["180", "270", "1e9"]}, [{"L": l, "H": h, "d": d} for l in (1, 0.25, 40) for h in (1, 0.1, 7) for d in (90, 45, 30, 135, 1, 179, 60.5)]),
    "gen_savonius": (savonius, {"R": POS, "h": POS + ["1e9"]}, [{"R": r, "h": r * k} for r in (1, 0.3, 20) for k in (0.1, 0.02, 0.5, 0.95)]),
    "gen_plate": (plate, {"R1": ["-1", "-1e-300"], "R2": ["-1", "-1e-300"], "L": POS, "start": ["-1", "1", "2", "-1e-9"], "stop": ["-1", "0", "2", "1.0000001"], "gap": POS},
                  [dict({"R1": a, "R2": b, "L": l}, **o) for a in (0.5, 0.2, 0) for b in (0.5, 0.1, 0) if a or b for l in (0.5, 1, 5)
                   for o in ({}, {"start": 0.25}, {"stop": 0.75}, {"start": 0.25, "stop": 0.75}, {"start": 0.5, "stop": 1}, {"stop": 0.5, "gap": 0.05}, {"start": 0.4, "stop": 0.6, "gap": 0.02}, {"start": 0, "stop": 1, "gap": 9})]),
    "gen_chamber_gpj": (gpj, {"R0": POS, "X0": [], "X1": ["-9"], "X2": ["-9"], "X3": ["-9"], "d": ["-1", "90", "100"], "L": ["5.5", "0", "-1"], "H": ["1", "0", "-1"], "dln": POS, "dls": POS},
                        [{"R0": r, "X0": -5, "X1": x1, "X2": x2, "X3": 0, "d": d, "L": 8, "H": h} for r in (0.5, 0.2) for x1 in (-4, -5, -3) for x2 in (-3, -1) for d in (30, 15, 0) for h in (4.75, 9)]),
    "gen_chamber_box": (box, {"L": POS, "H": POS, "D": POS + ["1e9"], "h": POS, "d": POS + ["1e9"], "dln": POS, "dls": POS},
                        [{"L": l, "H": hh, "D": l * a, "h": h, "d": (l - l * a) * b} for l in (0.5, 4) for hh in (0.5, 3) for a in (0.8, 0.2) for b in (0.5, 0.1) for h in (0.1, 0.75)]),
}
OPTIONAL = {"start", "stop", "gap"}


def lua(v):
    return repr(v) if isinstance(v, (int, float)) else v


def table(p):
    return "{" + ", ".join("%s=%s" % (k, lua(v)) for k, v in p.items()) + "}"


def good_cases(ctx):
    for name, (shape, bad, tabs) in sorted(SPEC.items()):
        for p in tabs:
            if name.startswith("gen_chamber"):
                sizes = [{"dln": a, "dls": b} for a in (0.05, 0.11, 0.3, 0.013) for b in (0.05, 0.2, 0.7) if ctx.thorough or a >= 0.05]
            else:
                scale = max(v for k, v in p.items() if k not in ("d", "start", "stop", "gap"))
                sizes = [{"N": n} for n in (1, 2, 3, 4, 5, 6, 7, 10, 16, 25, 40, 64, 99, 350) + (tuple(range(8, 64)) if ctx.thorough else ())]
                sizes += [{"dl": scale * k} for k in (1e6, 100, 10, 3, 1, 0.5, 0.2, 0.1, 0.037, 0.02) + ((0.004, 0.3, 0.15, 0.7, 2) if ctx.thorough else ())]
            for s in sizes:
                yield name, dict(p, **s)


def wrong_cases(ctx):
    """(name, parameters as text, names of what is wrong)"""
    fine = {"gen_cylinder": {"R": 1}, "gen_semicyl": {"R": 1}, "gen_ellipse": {"Rx": 2, "Ry": 1}, "gen_parallelogram": {"L": 1, "H": 1, "d": 60}, "gen_savonius": {"R": 1, "h": 0.2},
            "gen_plate": {"R1": 0.3, "R2": 0.2, "L": 1, "start": 0.25, "stop": 0.75, "gap": 0.01}, "gen_chamber_gpj": {"R0": 0.5, "X0": -5, "X1": -4, "X2": -3, "X3": 0, "d": 30, "L": 8, "H": 5, "dln": 0.1, "dls": 0.2},
            "gen_chamber_box": {"L": 4, "H": 3, "D": 1, "h": 0.2, "d": 0.3, "dln": 0.1, "dls": 0.2}}
    for name, (shape, bad, tabs) in sorted(SPEC.items()):
        base = {k: repr(v) for k, v in fine[name].items()}
        bad = dict(bad)
        if "dls" not in bad:
            variants = [("N", dict(base, N="60")), ("dl", dict(base, dl="0.05"))]
        else:
            variants = [(None, base)]
        for sized, p in variants:
            b = dict(bad)
            if sized:
                b[sized] = N_ if sized == "N" else POS
            options = []
            for k in sorted(b):
                options += [(k, v) for v in b[k] + TYPES]
                if k not in OPTIONAL:
                    options.append((k, None))
            options += [("foo", "5"), ("[1]", "1"), ("r", "1"), ("[{}]", "1"), ("[true]", "0"), ("[0.5]", "'x'")]
            if sized:
                options.append(("dl" if sized == "N" else "N", "3"))
            # all pairs, and for the small generators all triples
            depth = 3 if len(b) <= 3 or ctx.thorough and len(b) <= 4 else 2
            for n in range(1, depth + 1):
                for c in itertools.combinations(options, n):
                    if len({k for k, _ in c}) < n:
                        continue
                    t = dict(p)
                    for k, v in c:
                        if v is None:
                            t.pop(k)
                        else:
                            t[k] = v
                    if sized and (n == 2 and c[0][0] in ("N", "dl") and c[1][0] in ("N", "dl") or n == 3) and "3" in [v for k, v in c if k in ("N", "dl")] and None in [v for k, v in c if k in ("N", "dl")]:
                        # the other size in place of the missing one is fine unless something else is wrong
                        c = [(k, v) for k, v in c if k not in ("N", "dl")]
                        if not c:
                            continue
                    yield name, t, [k.strip("[]'") for k, _ in c] + (["N", "dl"] if sized and any(k in ("N", "dl") for k, _ in c) else [])
    # values that are each in range but do not go together
    for name, t, names in (("gen_plate", {"R1": "0", "R2": "0", "L": "1", "N": "50"}, ["R1", "R2"]), ("gen_plate", {"R1": "2", "R2": "0.5", "L": "1", "N": "50"}, ["R1", "R2", "L"]), ("gen_plate", {"R1": "0.1", "R2": "3", "L": "2.5", "N": "50"}, ["R1", "R2", "L"]),
                           ("gen_plate", {"R1": "0.3", "R2": "0.2", "L": "1", "N": "60", "start": "0.5", "stop": "0.5"}, ["start", "stop"]), ("gen_plate", {"R1": "0.3", "R2": "0.2", "L": "1", "N": "60", "start": "0.75", "stop": "0.25"}, ["start", "stop"]),
                           ("gen_ellipse", {"Rx": "1", "Ry": "2", "N": "50"}, ["Rx", "Ry"]), ("gen_savonius", {"R": "1", "h": "1", "N": "50"}, ["R", "h"]), ("gen_savonius", {"R": "1", "h": "1.5", "N": "50"}, ["R", "h"]),
                           ("gen_chamber_box", {"L": "4", "H": "3", "D": "4", "h": "0.2", "d": "0.3", "dln": "0.1", "dls": "0.2"}, ["D", "L"]), ("gen_chamber_box", {"L": "4", "H": "3", "D": "3", "h": "0.2", "d": "1", "dln": "0.1", "dls": "0.2"}, ["d", "D", "L"])):
        yield name, t, names
    for name in sorted(SPEC):
        for v in ("nil", "5", "'x'", "S", "true", "{}", "{{}}"):
            yield name, v, []


def run(ctx):
    t = sim.Tools()
    exe = core.binary(core.build_repo("asan", targets=("vvflow",)), "vvflow")
    cases = {}
    for name, p in good_cases(ctx):
        cases["%s%s" % (name, table(p))] = ("good", name, p)
    for name, p, names in wrong_cases(ctx):
        k = "%s%s" % (name, p if isinstance(p, str) else "{" + ", ".join("%s=%s" % (a, b) for a, b in p.items()) + "}")
        cases.setdefault(k, ("wrong", name, names))
    if ctx.replay_only is not None:
        cases = {k: v for k, v in cases.items() if k == ctx.replay_only}
    ids = list(cases)
    n = 24

    def shard(i):
        mine = [(j, ids[j]) for j in range(i, len(ids), n)]
        with open("%s/cases%d.lua" % (ctx.scratch, i), "w") as f:
            # in functions, since one holds a limited number of constants
            for k in range(0, len(mine), 200):
                f.write("do local function part()\n" + "".join("G(%r, %r, %s)\n" % (str(j), c[:c.index("{")] if "{" in c[:24] else c_name(c), c[len(c_name(c)):]) for j, c in mine[k:k + 200]) + "end part() end\n")
        pre = "%s/b%d_" % (ctx.scratch, i)
        rc, out, err = ctx.call([exe, os.path.join(core.VERIF, "harness", "c11.lua"), "%s/cases%d.lua" % (ctx.scratch, i), pre], ctx.scratch, timeout=3000 if ctx.thorough else 400)
        lines = [l.split("\t") for l in out.decode("latin-1").splitlines()]
        if not lines or lines[-1] != ["E"]:
            cur = open(pre + "cur").read().split("\n")[0] if os.path.exists(pre + "cur") else ""
            e = err.decode(errors="replace")
            m = [x for x in e.splitlines() if "ERROR: AddressSanitizer" in x or " in " in x and "/repo" in x][:3] or e.splitlines()[-3:]
            case = ids[int(cur)] if cur else "?"
            ctx.violation("crash@" + case, "rc=%s: %s" % (rc, " | ".join(m)[:600]), {"case": case})
            ctx.exhaustive = False
            return
        files = sorted({l[3] for l in lines if l[0] == "R" and l[2] == "ok"})
        data = t.read(ctx, [pre + f + ".h5" for f in files])
        for l in lines:
            if l[0] == "V":
                ctx.violation("%s@%s" % (l[1], ids[int(l[2])]), l[3], {"case": ids[int(l[2])]})
            elif l[0] == "R":
                f = data[pre + l[3] + ".h5"] if l[2] == "ok" else None
                judge(ctx, ids[int(l[1])], cases[ids[int(l[1])]], l, f)
    core.pmap(shard, range(n))
    ctx.rule = RULE


def c_name(c):
    return next(k for k in SPEC if c.startswith(k))


def judge(ctx, case, spec, line, f):
    with ctx.lock:
        ctx.evaluations += 1

    def bad(what, detail):
        ctx.violation("%s@%s" % (what, case), detail, {"case": case})
    kind, name, p = spec
    if kind == "wrong":
        if line[2] == "ok":
            return bad("accepted", "a body in spite of %s" % (", ".join(p) or "the argument"))
        if "bad argument #1" not in line[3] or p and not any("'%s'" % n in line[3] or n == "{}" or n == "true" for n in p) and not any(n in line[3].split("(", 1)[-1] for n in p):
            bad("error", "%r names none of %s" % (line[3], p))
        return
    pts, slip, why = None, None, None
    if line[2] == "ok":
        body = [f["sets"][s] for s in f["sets"] if s.startswith("body") and f["sets"][s]["attrs"].get("label") == line[1]]
        if len(body) != 1:
            raise core.CheckError("body of %s" % case)
        pts = [(r[0], r[1]) for r in body[0]["rows"]]
        slip = body[0]["attrs"]["slip"] if "slip" in body[0]["attrs"] else [body[0]["attrs"]["general_slip"]] * len(pts)
        slip = slip if isinstance(slip, list) else [slip]
        with ctx.lock:
            ctx.nontrivial += 1
        if any(not math.isfinite(x) for q in pts for x in q):
            return bad("finite", "vertices are not finite")
        if len(pts) < 3:
            return bad("closed", "%d segments enclose nothing" % len(pts))
        e = crossing(pts)
        if e:
            return bad("simple", e)
        if area2(pts) <= 0:
            return bad("orientation", "not clockwise")
    if name == "gen_ellipse":
        why = ellipse(p, pts, slip)
    else:
        why = described(SPEC[name][0](p), pts, slip, p)
    if why:
        bad(why[0], why[1] if line[2] == "ok" else "%s, yet an error: %s" % (why[1], line[3]))
    elif line[2] == "ok" and len(pts) == 40:
        ctx.sample("%s: 40 segments as described" % case)
    elif line[2] != "ok" and "'" in line[3].split("(", 1)[-1] and "discretization" not in line[3]:
        bad("error", "%s: nothing is wrong with that parameter" % line[3])


def described(pieces, pts, slip, p):
    scale = max(abs(x) for q in pieces for s in (0, 0.25, 0.5, 0.75) for x in q[1](s))
    pieces = [q for q in pieces if q[0] > 1e-9 * scale]
    coarse = any(q[0] / q[2] < 0.5 + 1e-6 for q in pieces)
    if pts is None:
        if coarse:
            return None
        # the polygons of both roundings
        for r in (-1e-7, 1e-7):
            v = [q[1](k / n) for q in pieces for n in [max(1, math.floor(q[0] / size(q) + 0.5 + r))] for k in range(n)]
            if len(v) < 3 or crossing(v) or area2(v) <= 1e-9 * scale * scale:
                return None
        return ("refused", "the contour is simple with %d segments" % len(v))
    n = len(pts)
    if coarse:
        # vertices are on the described curve all the same
        may = sorted(q[1](k / m) for q in pieces for m in {max(1, math.floor(q[0] / size(q) + 0.5 + r)) for r in (-1e-7, 1e-7)} for k in range(m + 1))
        xs = [v[0] for v in may]
        for x, y in pts:
            i, j = bisect.bisect_left(xs, x - 1e-9 * scale), bisect.bisect_right(xs, x + 1e-9 * scale)
            if not any(abs(v[1] - y) <= 1e-9 * scale for v in may[i:j]):
                return ("curve", "vertex (%g, %g) is not on the described contour" % (x, y))
        return None
    if "N" in p and not OPTIONAL & set(p) and abs(n - p["N"]) > 0.5 * len(pieces) + 1e-6 and len(pieces) > 1 or len(pieces) == 1 and "N" in p and n != p["N"]:
        return ("count", "%d segments instead of %d" % (n, p["N"]))

    def at(i, q):
        v = pts[i % n]
        return abs(v[0] - q[0]) <= 1e-9 * scale and abs(v[1] - q[1]) <= 1e-9 * scale
    first = pieces[0][1](0)
    start = 0 if len(pieces) == 1 else min(range(n), key=lambda i: (pts[i][0] - first[0]) ** 2 + (pts[i][1] - first[1]) ** 2)
    i = start
    for k, q in enumerate(pieces):
        if not at(i, q[1](0)):
            return ("corner", "%r is not a vertex, the nearest is %r" % (q[1](0), pts[i % n]))
        lo, hi = q[0] / q[2] - 0.5, q[0] / min(q[2], size(q)) + 0.5
        for m in range(max(1, math.ceil(lo - 1e-6)), math.floor(hi + 1e-6) + 1):
            if all(at(i + j, q[1](j / m)) for j in range(1, m + 1)):
                break
        else:
            return ("piece", "piece %d from %r to %r (length %g) does not consist of %d even segments of about %g: %r" %
                    (k, q[1](0), q[1](1), q[0], round(q[0] / q[2]), q[2], pts[i % n:i % n + 3]))
        for j in range(m):
            if bool(slip[(i + j) % n]) != bool(q[3]):
                return ("slip", "segment %d of piece %d has slip %r" % (j, k, slip[(i + j) % n]))
        i += m
    if i - start != n:
        return ("count", "%d segments, the described contour has %d" % (n, i - start))
    return None


def size(q):
    return q[2] if q[4] is None else min(q[2], q[0] / q[4])


def ellipse(p, pts, slip):
    a, b = p["Rx"], p["Ry"]
    m = 4000
    arcs = [math.hypot(a * math.sin(2 * PI * (i + 0.5) / m), b * math.cos(2 * PI * (i + 0.5) / m)) * 2 * PI / m for i in range(m)]
    total = math.fsum(arcs)
    d = p["dl"] if "dl" in p else total / p["N"]
    if pts is None:
        return None if d > b / 2 else ("refused", "a segment is shorter than a quarter of the ellipse's width")
    n = len(pts)
    if abs(n - total / d) > max(4, 0.03 * n):
        return ("count", "%d segments of %g on a length of %g" % (n, d, total))
    if any(abs((x / a) ** 2 + (y / b) ** 2 - 1) > 1e-9 for x, y in pts):
        return ("curve", "a vertex is not on the ellipse")
    if any(slip):
        return ("slip", "slip")
    key = sorted(pts)
    for sx, sy in ((-1, 1), (1, -1)):
        o = sorted((sx * x, sy * y) for x, y in pts)
        if any(min(math.hypot(u[0] - v[0], u[1] - v[1]) for v in key[max(0, i - 3):i + 4]) > 1e-9 * a for i, u in enumerate(o)):
            return ("symmetry", "not symmetric")
    l = [math.hypot(u[0] - v[0], u[1] - v[1]) for u, v in zip(pts, pts[1:] + pts[:1])]
    if n > 20 and (max(l) > 1.6 * d or min(l) < 0.5 * d):
        return ("length", "segments of %g to %g instead of about %g" % (min(l), max(l), d))
    return None


def area2(v):
    """twice the area of a clockwise polygon"""
    return math.fsum(b[0] * a[1] - a[0] * b[1] for a, b in zip(v, v[1:] + v[:1]))


def crossing(v):
    """None if the polygon is simple"""
    n = len(v)
    s = sorted((min(v[i][0], v[(i + 1) % n][0]), max(v[i][0], v[(i + 1) % n][0]), i) for i in range(n))

    def side(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    for x, (lo, hi, i) in enumerate(s):
        a, b = v[i], v[(i + 1) % n]
        if a == b:
            return "segment %d has no length" % i
        for y in range(x + 1, n):
            if s[y][0] > hi:
                break
            j = s[y][2]
            c, d = v[j], v[(j + 1) % n]
            if (i - j) % n in (1, n - 1):
                if n > 2:
                    # neighbours may not fold back onto each other
                    p, q, r = (a, b, d) if (j - i) % n == 1 else (c, d, b)
                    if side(p, q, r) == 0 and (q[0] - p[0]) * (r[0] - q[0]) + (q[1] - p[1]) * (r[1] - q[1]) < 0:
                        return "segments %d and %d overlap" % (i, j)
                continue
            if max(a[1], b[1]) < min(c[1], d[1]) or max(c[1], d[1]) < min(a[1], b[1]):
                continue
            if side(a, b, c) * side(a, b, d) <= 0 and side(c, d, a) * side(c, d, b) <= 0:
                return "segments %d and %d cross" % (i, j)
    return None
