import itertools
import math
import os
import shutil
from fractions import Fraction as F

from mc import core, sim

RULE = ("Every combination of start time, time step, save period, streak period, number of steps (finish on a step, and between two "
        "steps) and content of the tables below is simulated by vvflow, from a script or from a saved file, many in one process. The "
        "rows of the step record, names and times of the snapshots, number and age of the streak particles in every snapshot and the "
        "lines of the sensor record are compared with a reference schedule in exact fractions. Steps that do not advance, and runs past the "
        "last representable time, must end in an error. Non-trivial: at least one step taken.")

DT = ["1/10", "1/7", "1/30", "1/4", "3/70"]
T0 = ["0/1", "-1/5", "1/10", "3/10", "1/3", "-1/3", "1/20", "2000/1"]
SAVE = ["0/1", "dt", "2dt", "3dt/2", "1/5", "1/2", "1/3", "dt/2", "7dt"]
STREAK = ["0/1", "dt", "3dt", "1/5", "5dt/2"]
NSTEP = [-3, 0, 1, 4, 11]
CONTENT = {
    "flow": "",
    "vort": "S.vort_list:append({5,5,0.4})",
    "body": "local b=gen_cylinder{R=0.5,N=8}; b:move_r({40,0}); S.body_list:insert(b)",
}
SOURCES = [(0.0, 0.0), (-1.0, 2.0)]
SENSORS = [(0.5, 0.25), (-3.0, 1.0)]


def period(s, dt):
    if "dt" in s:
        a = s.split("dt")
        return dt * F(a[0] or 1) / F(a[1][1:] if a[1] else 1)
    return F(s)


def txt(f):
    return "%d/%d" % (f.numerator, f.denominator)


def run(ctx):
    t = sim.Tools()
    groups = []
    for dt, t0 in itertools.product(DT, T0):
        for sv in SAVE:
            cases = []
            for st, n, c in itertools.product(STREAK, NSTEP, CONTENT):
                if c == "body" and (st not in ("0/1", "3dt") or n > 4):
                    continue
                for off in ((F(0),) if c != "flow" or n == 11 and not ctx.thorough else (F(0), F(1, 3), F(-1, 3))):
                    if not ctx.thorough and off and st not in ("0/1", "dt"):
                        continue
                    cases.append((dt, t0, sv, st, n, c, off))
            groups.append(cases)
    if ctx.replay_only is not None:
        groups = [[c for g in groups for c in g if name(c) == ctx.replay_only]]
    core.pmap(lambda g: group(ctx, t, g), [g for g in groups if g])
    refusals(ctx, t)
    ctx.rule = RULE


# steps that do not advance, and times that the record of time cannot hold: an error, not an endless run
REFUSE = {
    "step-zero": ('S.dt="0/7"; S.finish=1', 0),
    "step-negative": ('S.dt="-1/10"; S.finish=1', 0),
    "step-negative-back": ('S.dt="-1/10"; S.time="5/1"; S.finish=1', 0),
    "step-negative-past": ('S.dt="-1/10"; S.finish=-5', 0),
    "reynolds-zero": ('S.dt="1/10"; S.finish=1; S.re=0', 0),
    "time-at-the-end": ('S.dt="1/1"; S.time="2147483645/1"; S.finish=1e12', 3),
    "time-without-denominator": ('S.dt="1/4294967291"; S.time="1/1000003"; S.finish=1e12', 1),
}


def refusals(ctx, t):
    for k, (txt_, steps) in REFUSE.items():
        for src in ("script", "file"):
            key = "refuse:%s:%s" % (k, src)
            if ctx.replay_only is not None and key != ctx.replay_only:
                continue
            d = os.path.join(ctx.scratch, key.replace(":", "_"))
            os.makedirs(d)
            rc, err = t.flow(ctx, d, "%s; S.caption='c'; %s local ok,e=pcall(simulate); print(ok,e); os.exit(ok and 7 or 5)"
                             % (txt_, "S:save('a.h5'); S:load('a.h5');" if src == "file" else ""), timeout=60)
            with ctx.lock:
                ctx.evaluations += 1
                ctx.nontrivial += 1
            rows = t.read(ctx, [d + "/stepdata_c.h5"])[d + "/stepdata_c.h5"] if os.path.exists(d + "/stepdata_c.h5") else {"sets": {}}
            n = rows.get("sets", {}).get("time", {"dims": [0]})["dims"][0]
            ctx.check(rc == 5 and n <= steps, key, "exit %s (5: an error the script can catch), %d steps recorded; %s" % (rc, n, err[-200:]))
            shutil.rmtree(d)


def name(c):
    return ":".join(str(x) for x in c)


def cap(i):
    # some with what a format would take for its own
    return "c%d" % i if i % 7 != 3 else "c%d" % i + "%s 50%"


def group(ctx, t, cases):
    d = os.path.join(ctx.scratch, "g%x" % (hash(name(cases[0])) & 0xffffffffff))
    os.makedirs(d)
    with open(d + "/sensors", "w") as f:
        for s in SENSORS:
            f.write("%g %g\n" % s)
    lines = ['S:save("empty.h5")']
    for i, (dt, t0, sv, st, n, c, off) in enumerate(cases):
        q = F(dt)
        fin = F(t0) + q * n + q * off
        lines.append('S:load("empty.h5"); S.dt="%s"; S.time="%s"; S.dt_save="%s"; S.dt_streak="%s"; S.finish=%.17g; S.inf_vx="1+t"; S.caption="%s"; %s'
                     % (dt, t0, txt(period(sv, q)), txt(period(st, q)), fin, cap(i), CONTENT[c]))
        for s in SOURCES:
            lines.append("S.streak_source_list:append({%g,%g,1})" % s)
        # every fifth from a file
        lines.append('S:save("c%d.h5"); S:load("c%d.h5")' % (i, i) if i % 5 == 4 else "")
        lines.append("simulate(); S:save('end%d.h5')" % i)
    rc, err = t.flow(ctx, d, "\n".join(lines), args=["--sensors", "sensors"], timeout=300)
    if rc != 0:
        ctx.violation("fails@" + name(cases[0]), "%s %s" % (rc, err[-400:]))
        shutil.rmtree(d)
        return
    files, per = [], []
    for i, c in enumerate(cases):
        rd = d + "/results_" + cap(i)
        names = sorted(os.listdir(rd)) if os.path.isdir(rd) else []
        per.append(names)
        files += [rd + "/" + n for n in names] + [d + "/stepdata_%s.h5" % cap(i), d + "/end%d.h5" % i]
    data = t.read(ctx, files)
    nontrivial = 0
    for i, c in enumerate(cases):
        rd = d + "/results_" + cap(i) + "/"
        sens = d + "/velocity_" + cap(i)
        sens = open(sens).read().splitlines() if os.path.exists(sens) else []
        nontrivial += judge(ctx, c, data[d + "/stepdata_%s.h5" % cap(i)], {n: data[rd + n] for n in per[i]}, sens, data[d + "/end%d.h5" % i])
    with ctx.lock:
        ctx.evaluations += len(cases)
        ctx.nontrivial += nontrivial
    ctx.sample("%s and %d more in one process" % (name(cases[0]), len(cases) - 1), 6)
    shutil.rmtree(d)


def judge(ctx, c, rec, snaps, sens, end):
    dt, t0, sv, st, n, content, off = c
    dt, t0 = F(dt), F(t0)
    sv, st = period(sv, dt), period(st, dt)

    def bad(key, detail):
        ctx.violation(key + "@" + name(c), detail, {"case": name(c)})

    if not rec or "error" in rec or "time" not in rec["sets"]:
        bad("record", "unreadable step record")
        return 0
    got = [r[0] for r in rec["sets"]["time"]["rows"]]
    # the finish time on a step: exactly; between two steps: either of them is the last
    counts = {max(0, n + 1)} if off == 0 else {max(0, n + 1), max(0, n + 2), max(0, n)}
    if len(got) not in counts:
        bad("steps", "%d steps %r, expected %r" % (len(got), got[:4], sorted(counts)))
        return 0
    times = [t0 + k * dt for k in range(len(got))]
    if any(abs(g - float(x)) > 1e-6 * (1 + abs(x)) for g, x in zip(got, times)):
        bad("step-times", "%r expected %r" % (got, [float(x) for x in times]))
    for p, s in rec["sets"].items():
        if s["dims"][0] != len(times):
            bad("step-rows", "%s has %d rows of %d" % (p, s["dims"][0], len(times)))
    if sim.frac(end["attrs"]["time"]) != t0 + len(times) * dt:
        bad("end-time", "%r expected %s" % (end["attrs"]["time"], t0 + len(times) * dt))
    want = {}
    for x in times:
        if sv and x % sv == 0 and x >= 0:
            # the nearest step number; a start between two steps may be counted either way
            want[x] = {math.floor(x / dt + F(1, 2)), math.ceil(x / dt - F(1, 2))}
    have = {}
    for f, s in snaps.items():
        if "error" in s:
            bad("snapshot-unreadable", f)
            continue
        have.setdefault(sim.frac(s["attrs"]["time"]), []).append(f)
    if sorted(have) != sorted(want) or any(len(v) > 1 for v in have.values()):
        bad("snapshots", "%r expected times %r" % (sorted(snaps), [str(x) for x in want]))
    for x in set(have) & set(want):
        f = have[x][0]
        if f not in {"%06d.h5" % k for k in want[x]}:
            bad("snapshot-name", "%s holds the time %s, step %r" % (f, x, want[x]))
        # streak particles: one per source for every multiple of the period before; carried by the flow since
        sets = snaps[f]["sets"]
        ink = [tuple(r) for r in sets["ink"]["rows"]] if "ink" in sets else []
        sheds = [y for y in times if y < x and st and y % st == 0]
        if content != "body":
            exp = sorted((sx + float(sum(dt * (1 + times[k]) for k in range(len(times)) if y <= times[k] < x)), sy) for y in sheds for sx, sy in SOURCES)
            tol = 0.05 if content == "vort" else 1e-9
            gotp = sorted((r[0], r[1]) for r in ink)
            if len(gotp) != len(exp) or any(min(abs(a[0] - b[0]) + abs(a[1] - b[1]) for b in gotp) > tol * (1 + abs(a[0])) * (1 + (len(times) if tol > 1e-3 else 0)) for a in exp):
                bad("streak", "%s: %r expected %r" % (f, gotp, exp))
        elif len(ink) != len(sheds) * len(SOURCES):
            bad("streak", "%s: %d particles expected %d" % (f, len(ink), len(sheds) * len(SOURCES)))
        if "ink_source" not in sets or [r[:2] for r in sets["ink_source"]["rows"]] != [list(s) for s in SOURCES]:
            bad("sources", f)
    # sensors
    if len(sens) != len(times):
        bad("sensor-lines", "%d lines for %d steps" % (len(sens), len(times)))
    else:
        for l, x in zip(sens, times):
            v = [float(w) for w in l.split()]
            if len(v) != 1 + 2 * len(SENSORS) or abs(v[0] - float(x)) > 1e-5 * (1 + abs(x)):
                bad("sensor-time", "%r at %s" % (l, x))
                break
            if content == "flow" and any(abs(v[1 + 2 * k] - float(1 + x)) > 1e-5 * (1 + abs(x)) or v[2 + 2 * k] for k in range(len(SENSORS))):
                bad("sensor-value", "%r at %s" % (l, x))
                break
            if content == "vort" and x == times[0]:
                # the vortex has not moved yet
                for k, (px, py) in enumerate(SENSORS):
                    dx, dy = px - 5, py - 5
                    q = 0.4 / (2 * math.pi * (dx * dx + dy * dy))
                    if abs(v[1 + 2 * k] - (float(1 + x) - dy * q)) > 1e-4 * (1 + abs(x)) or abs(v[2 + 2 * k] - dx * q) > 1e-4:
                        bad("sensor-value", "%r at %s" % (l, x))
    return 1 if times else 0
