import itertools
import math
import os
import subprocess

from mc import core

RULE = ("Every file of up to N samples over the value alphabets below (with three columns, some with two to seven, every abscissa table, with and "
        "without comment lines before, between and after the samples), and every option combination of the tables, is given to every "
        "script; what is printed is compared with the definition evaluated in rational arithmetic or long sums. Two files at once, "
        "large offsets and a long file besides. Samples whose abscissa is exactly at the end of the range are not judged. "
        "Non-trivial: at least two samples in the range.")

# abscissae increasing, as in a time series
XS = {"unit": lambda i: i + 1.0, "around0": lambda i: (-2.0, -0.75, 0.5, 0.625, 3.0, 7.0, 11.5, 12.0)[i % 8] + 16 * (i // 8), "fine": lambda i: 1000 + i / 1024.0}
RANGES = [{}, {"xmin": "0"}, {"xmax": "0"}, {"xmin": "-0.9", "xmax": "0.55"}, {"xmin": "1.5"}, {"xmax": "3.5"}, {"xmin": "1.5", "xmax": "3.5"}, {"xmin": "5", "xmax": "2"}, {"xmin": "0", "xmax": "0"}, {"xmin": "-1e9", "xmax": "1e9"}]
HEAD = "#time\tbody00/force_hydro[1]\tbody00/force_hydro[2]\n"


def files(ctx):
    """[(name, text, [(x, y, z)])]"""
    res = []

    def add(name, samples, comments):
        rows = ["\t".join(("%.10g", "%+.6e")[j == 1] % v for j, v in enumerate(s)) + "\n" for s in samples]
        if comments == "head":
            rows.insert(0, HEAD)
        elif comments == "many":
            rows.insert(0, "# 5 -7 3\n")
            rows.insert(len(rows) // 2 + 1, "  # 2.0 100 -100\n")
            rows.append("#9 9 9\n")
        res.append((name, "".join(rows), [tuple(float(("%.10g", "%+.6e")[j == 1] % v) for j, v in enumerate(s)) for s in samples]))

    vals = (-1.0, 0.0, 2.5)
    top = 8 if ctx.thorough else 6
    for n in range(0, top + 1):
        for k, seq in enumerate(itertools.product(vals, repeat=n)):
            for xi, xn in enumerate(XS):
                if n > 4 and (k + xi) % 3 and not ctx.thorough:
                    continue
                for ci, c in enumerate(("none", "head", "many")):
                    if n > 3 and (k // 3 + xi + ci) % 3 and not ctx.thorough:
                        continue
                    add("%s:%s:%s" % (",".join("%g" % v for v in seq), xn, c), [(XS[xn](i), v, seq[-1 - i] * (i - 1.5)) for i, v in enumerate(seq)], c)
    for name, seq in (("offset", [1e9, 1e9 + 1000, 1e9 - 1000]), ("tenths", [0.1] * 7), ("thirds", [1 / 3.] * 11), ("tiny", [1e-12, -3e-12, 2e-12, 1e-12]), ("huge", [1e30, -2e30, 5e29])):
        add(name, [(i + 1.0, v, -v) for i, v in enumerate(seq)], "head")
    add("long", [(i / 64.0, ((i * 37) % 101) / 16.0 - 3, ((i * 53) % 97) - 48.0) for i in range(2000)], "head")
    for n in (2, 4, 5, 7):  # columns
        for m in (1, 2, 5, 9):
            add("columns:%d:%d" % (n, m), [tuple([i + 1.0] + [((i * 7 + j * 5) % 11) - 5.5 + j for j in range(n - 1)]) for i in range(m)], "head")
    return res


def inrange(o, x):
    """None on the edge"""
    a, b = float(o.get("xmin", "-inf")), float(o.get("xmax", "inf"))
    if x == a or x == b:
        return None
    return a < x < b


def want_avg(o, rows):
    v = [r[int(o.get("col", 2)) - 1] for r in rows if inrange(o, r[0])]
    return [(math.fsum(v) / len(v) if v else 0.0, 1e-12 * max(map(abs, v), default=0))]


def want_sd(o, rows):
    v = [r[int(o.get("col", 2)) - 1] for r in rows if inrange(o, r[0])]
    if not v:
        return [(0.0, 0.0)]
    m = math.fsum(v) / len(v)
    sd = math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))
    sq = max(x * x for x in v)
    # sqrt(E(x^2) - E(x)^2) is known to this precision
    err = 1e-14 * sq * (1 + len(v))
    return [(sd, math.sqrt(sd * sd + err) - math.sqrt(max(0.0, sd * sd - err)))]


def want_zeros(o, rows):
    c = int(o.get("col", 2)) - 1
    res, prev = [], None
    for r in rows:
        ok = inrange(o, r[0])
        if ok and prev is not None and (prev[c] < 0 < r[c] or prev[c] > 0 > r[c]):
            z = (r[0] * abs(prev[c]) + prev[0] * abs(r[c])) / (abs(prev[c]) + abs(r[c]))
            # where it lies may be outside of the range if the sample before is
            res.append((z, 1e-9, bool(inrange(o, prev[0]))))
        elif ok and r[c] == 0:
            res.append((r[0], 1e-9, True))
        prev = r
    return res


def want_ampl(o, rows):
    c, span = int(o.get("col", 2)) - 1, int(o.get("span", 5))
    hi, lo = [], []
    for i in range(len(rows) - span + 1):
        w = [r[c] for r in rows[i:i + span]]
        mid = rows[i + span - 1 - span // 2]
        if not inrange(o, mid[0]):
            continue
        if mid[c] == max(w):
            hi.append(mid[c])
        if mid[c] == min(w):
            lo.append(mid[c])
    a = math.fsum(hi) / len(hi) if hi else 0.0
    b = math.fsum(lo) / len(lo) if lo else 0.0
    return [(a - b, 1e-12 * max([abs(r[c]) for r in rows], default=0))]


def want_mavg(o, rows):
    c, span = int(o.get("col", 2)) - 1, int(o.get("span", 20))
    res, big = [], 0
    for i, r in enumerate(rows):
        w = [q[c] for q in rows[max(0, i - span + 1):i + 1]]
        big = max(big, abs(r[c]))
        out = [(v, 0.0) for v in r]
        out[c] = (math.fsum(w) / len(w), 1e-12 * big)
        res.append(out)
    return res


def want_drv(o, rows):
    c, div = int(o.get("col", 2)) - 1, float(o.get("div", 1))
    res = []
    for p, r in zip(rows, rows[1:]):
        out = [(v, 0.0) for v in r]
        out[c] = ((r[c] - p[c]) / div, 1e-12 * max(abs(r[c]), abs(p[c])))
        res.append(out)
    return res


def options():
    cols = [{}, {"col": "2"}, {"col": "3"}, {"col": "1"}]
    ranged = [dict(c, **r) for r in RANGES for c in (cols if len(r) == 2 else cols[:1] + cols[2:3])]
    return [
        ("avg", want_avg, ranged), ("sd", want_sd, ranged), ("zeros", want_zeros, ranged),
        ("ampl", want_ampl, [dict(r, **s) for r in RANGES for s in ({}, {"span": "3"}, {"span": "4"}, {"span": "1", "col": "3"}, {"span": "2"})]),
        ("mavg", want_mavg, [dict(c, **s) for c in cols for s in ({}, {"span": "1"}, {"span": "2"}, {"span": "3"}, {"span": "5"})]),
        ("drv", want_drv, [dict(c, **s) for c in cols for s in ({}, {"div": "0.5"}, {"div": "-4"}, {"div": "1e-3"})]),
    ]


def run(ctx):
    fs = files(ctx)
    d = os.path.join(ctx.scratch, "f")
    os.makedirs(d)
    for i, (_, text, _) in enumerate(fs):
        with open("%s/%d" % (d, i), "w") as f:
            f.write(text)
    jobs = []
    for s, want, opts in options():
        script = os.path.join(core.REPO, "utils", "scripts", "vvawk." + s)
        for oi, o in enumerate(opts):
            # the longer files meet every second, third... option in quick
            idx = [i for i, f in enumerate(fs) if ctx.thorough or len(f[2]) <= 3 or len(f[2]) > 6 or (i + oi) % 4 == 0]
            for k in range(0, len(idx), 400):
                jobs.append((s, script, want, o, idx[k:k + 400]))
    core.pmap(lambda j: batch(ctx, d, fs, *j), jobs)
    # several files in a row are one
    for s, want, opts in options():
        script = os.path.join(core.REPO, "utils", "scripts", "vvawk." + s)
        for a, b in ((3, 60), (60, 3), (100, 140), (0, 61)):
            rc, out, err = ctx.call(["awk", "-f", script, "%s/%d" % (d, a), "%s/%d" % (d, b)], d)
            judge(ctx, s, want, {}, "%s+%s" % (fs[a][0], fs[b][0]), fs[a][2] + fs[b][2], out.decode(), rc, err.decode())
    ctx.rule = RULE


def batch(ctx, d, fs, s, script, want, o, idx):
    """one shell runs the script on many files"""
    if ctx.replay_only is not None:
        idx = [i for i in idx if case(s, o, fs[i][0]) == ctx.replay_only]
    v = " ".join("-v %s=%s" % kv for kv in sorted(o.items()))
    sh = 'for i in %s; do awk -f "%s" %s %s/$i; echo "@@ $?"; done' % (" ".join(map(str, idx)), script, v, d)
    rc, out, err = ctx.call(["sh", "-c", sh], d, timeout=600)
    parts, cur = [], []
    for l in out.decode(errors="replace").split("\n"):
        if l.startswith("@@ "):
            parts.append(("\n".join(cur + [""]) if cur else "", int(l[3:])))
            cur = []
        else:
            cur.append(l)
    for i, (text, st) in zip(idx, parts):
        judge(ctx, s, want, o, fs[i][0], fs[i][2], text, st, err.decode(errors="replace"))


def case(s, o, name):
    return "%s %s %s" % (s, " ".join("%s=%s" % kv for kv in sorted(o.items())), name)


def judge(ctx, s, want, o, name, rows, out, rc, err):
    if rows and int(o.get("col", 2)) > len(rows[0]):
        return
    k = case(s, o, name)
    if ctx.replay_only is not None and ctx.replay_only != k:
        return

    def bad(what, detail):
        ctx.violation("%s-%s@%s" % (s, what, k), detail, {"case": k})
    with ctx.lock:
        ctx.evaluations += 1
        if len(rows) > 1:
            ctx.nontrivial += 1
    if rc != 0:
        return bad("status", "status %s: %s" % (rc, err[:300]))
    if any(inrange(o, r[0]) is None for r in rows):
        return
    exp = want(o, rows)
    lines = [l for l in out.split("\n") if l.strip() and not l.lstrip().startswith("#")]
    try:
        got = [[float(x) for x in l.split()] for l in lines]
    except ValueError:
        return bad("text", "prints %r" % out[:200])
    if s == "zeros":
        may = [e for e in exp if not e[2]]
        exp = [e[:2] for e in exp if e[2] or any(abs(e[0] - g[0]) <= e[1] + 1e-6 * abs(e[0]) for g in got if g)]
    if s in ("mavg", "drv"):
        if len(got) != len(exp):
            return bad("rows", "%d rows instead of %d" % (len(got), len(exp)))
        for i, (g, e) in enumerate(zip(got, exp)):
            if len(g) != len(e) or not all(close(x, y) for x, y in zip(g, e)):
                return bad("value", "row %d is %r instead of %r" % (i, g, [y[0] for y in e]))
    else:
        if [len(g) for g in got] != [1] * len(exp):
            return bad("rows", "prints %r instead of %r" % (out[:200], [e[0] for e in exp][:9]))
        for g, e in zip(got, exp):
            if not close(g[0], e):
                return bad("value", "prints %r instead of %.9g" % (g[0], e[0]))
    if len(rows) == 5 and o:
        ctx.sample("vvawk.%s: as defined" % k)


def close(x, e):
    return abs(x - e[0]) <= 1e-6 * abs(e[0]) + e[1]
