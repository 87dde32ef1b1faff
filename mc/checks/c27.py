import math

from mc import sim, stepref, stepruns
from mc.checks import c28

RULE = ("The problems of C28, further ones with several bodies, finer walls and longer records, with and without profiles, each simulated by "
        "vvflow with every step saved. The row of each step must hold (in single precision) what the snapshot of that step holds and "
        "implies: hydrodynamic and holder forces, positions, deflections and speeds as saved, friction from the friction of the "
        "segments (its moment about the axis), the pressure profile as the running sum of the circulation shed and absorbed "
        "by the segments, the friction profile, the time. Nothing else may be in the record, and the record ends with the run. "
        "Non-trivial: a row that was compared.")


def judge(name, files, count):
    start, snaps, rec, sens = files
    bad = []
    sets = rec["sets"]
    profile = not name.endswith("bare")
    rows = sets["time"]["rows"]
    if len(rows) != stepruns.steps(name) + 1:
        bad.append(("rows", "%d rows of %d" % (len(rows), stepruns.steps(name) + 1)))
    for f in snaps:
        s = stepref.read(f)
        if stepref.wild(s):
            count("run away")
            continue
        k = [i for i, r in enumerate(rows) if abs(r[0] - s.t) < 1e-9 * (1 + abs(s.t))]
        if len(k) != 1:
            bad.append(("time", "time %r is recorded %d times" % (s.t, len(k))))
            continue
        k = k[0]
        stepref.shed(s)
        want = stepref.row(s)
        if not profile:
            want = {n: v for n, v in want.items() if not n.endswith(("/pressure", "/friction"))}
        if set(want) != set(sets):
            bad.append(("datasets", "%r instead of %r" % (sorted(sets), sorted(want))))
            break
        for n, v in want.items():
            if len(sets[n]["rows"]) != len(rows) or sets[n]["dims"] != [len(rows), len(v)]:
                bad.append(("size:" + n.split("/")[-1], "%s: %r" % (n, sets[n]["dims"])))
                continue
            got = sets[n]["rows"][k]
            big = max([abs(x) for x in v if math.isfinite(x)] + [1e-3])
            tol = 1e-12 if n == "time" else 1.3e-7
            if n.endswith(("pressure", "force_friction")):
                # sums that cancel
                tol *= 3
            for i, (x, y) in enumerate(zip(v, got)):
                if not (abs(x - y) <= tol * (abs(x) if n != "time" else 1) + 1e-9 * big):
                    bad.append((n.split("/")[-1], "time %r, %s[%d] is %r, expected %r" % (s.t, n, i, y, x)))
                    break
        count("compared")
    return bad


def run(ctx):
    c28.run(ctx, judge, RULE, stepruns.record_table)
