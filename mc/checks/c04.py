import math
import os
import shutil
from fractions import Fraction as F

from mc import core, sim

RULE = ("Histories: for every group, all sequences of up to DEPTH actions out of: run the problem afresh to one of the listed last steps, "
        "run another problem under the same caption, resume from any snapshot present to one of the last steps, each with and without "
        "profiles; states (rows and snapshots) already seen are not expanded again. After every action the record must be the list that a "
        "reference keeps: rows before the start kept, new rows appended. Values come from an uninterrupted run and this from its own "
        "snapshots. Interruptions: a fresh and a resumed run are killed before every call that changes a file (and, thorough, half-way "
        "through it), with flushes never or always due, and resumed from the last complete snapshot. Non-trivial: record with rows.")

# problem and another one: time step, save period, start of both
CYL = 'local b=gen_cylinder{R=0.5,N=12}; S.body_list:insert(b); '
GROUPS = {
    "vortices": dict(dt="1/10", sv="1/5", start=("0/1", "1/4"),
                     text=('S.vort_list:append({2,0.3,0.5},{2.1,0.2,-0.4}); S.inf_vx="1+t"', 'S.vort_list:append({-2,0.3,1.5})')),
    "cylinder": dict(dt="1/10", sv="1/5", start=("0/1", "1/5"), profiles=True,
                     text=('S.re=60; S.inf_vx="1"; ' + CYL + 'b.holder_vo="1+t"', 'S.inf_vy="1"; ' + CYL + 'b.holder_vx="t"; b.slip=true')),
    "elastic": dict(dt="1/7", sv="1/7", start=("-2/7", "-1/7"), profiles=True,
                    text=('S.re=100; S.inf_vx="1"; S.gravity={1,-3}; ' + CYL + 'b.spring_const={4,3,1}; b.density=2; '
                          'local c=gen_ellipse{Rx=0.4,Ry=0.2,N=24}; c:move_r({1.3,0.4}); S.body_list:insert(c); c.root=b; c.spring_const={inf,0,inf}; c.density=5; c.collision_min={nan,-0.1,nan}',
                          'S.inf_vy="1"; S.body_list:insert(gen_cylinder{R=0.5,N=12}); local c=gen_ellipse{Rx=0.4,Ry=0.2,N=24}; c:move_r({2,0}); S.body_list:insert(c); c.holder_vo="3"')),
    "fine": dict(dt="1/20000", sv="1/10000", start=("2000/1", "40000003/20000"),
                 text=('S.inf_vx="1"; ' + CYL + 'b.slip=true; b.holder_vy="1"', 'S.inf_vy="1"; ' + CYL + 'b.slip=true')),
    "long": dict(dt="1/100", sv="64/100", start=("0/1", "71/100"), last=(127, 128, 129, 260), depth=2,
                 text=('S.vort_list:append({2,0.3,0.5},{2.1,0.2,-0.4}); S.inf_vx="1+t"', 'S.vort_list:append({-2,0.3,1.5})')),
    "long-body": dict(dt="1/100", sv="64/100", start=("0/1", "7/10"), last=(128, 200), depth=2, profiles=True,
                      text=('S.inf_vx="t"; ' + CYL + 'b.slip=true; b.holder_vo="t"', 'S.inf_vx="1"; ' + CYL + 'b.slip=true')),
}
NAMES = ("force_hydro", "force_holder", "force_friction", "holder_position", "delta_position", "speed_slae")


class Problem:
    def __init__(self, g, i):
        G = GROUPS[g]
        self.g, self.i = g, i
        self.dt, self.sv, self.t0 = F(G["dt"]), F(G["sv"]), F(G["start"][i])
        self.G = G

    def time(self, k):
        return self.t0 + k * self.dt

    def number(self, k):
        t = self.time(k) / self.dt + F(1, 2)
        return "%06d.h5" % (t.numerator // t.denominator)

    def saved(self, k):
        return self.time(k) >= 0 and self.time(k) % self.sv == 0

    def every(self):
        """a save period that hits every step"""
        a, b = abs(self.t0), self.dt
        den = a.denominator * b.denominator
        return "%d/%d" % (math.gcd(int(a * den), int(b * den)), den)

    def finish(self, k):
        return "S.finish=%.17g" % self.time(k)

    def script(self, k, save=None):
        return '%s\nS.dt="%s"; S.dt_save="%s"; S.time="%s"; S.caption="run"; %s; simulate()\n' % (
            self.G["text"][self.i], self.G["dt"], save or self.G["sv"], self.G["start"][self.i], self.finish(k))


def run(ctx):
    t = sim.Tools()
    only = ctx.replay_only
    if only is None or only.startswith("history:"):
        core.pmap(lambda g: histories(ctx, t, g), [g for g in GROUPS if only is None or only.split(":")[1] == g])
    if only is None or only.startswith("killed:"):
        kills(ctx, t)
    ctx.rule = RULE.replace("DEPTH", "4" if ctx.thorough else "3")


def reference(ctx, t, g, i):
    """rows of the uninterrupted problem, after they have been compared with its snapshots"""
    p = Problem(g, i)
    n = max(GROUPS[g].get("last", (6,))) + 1
    d = os.path.join(ctx.scratch, "ref_%s_%d" % (g, i))
    rc, err = t.flow(ctx, d, p.script(n, p.every()), args=["--profile"])
    if rc != 0:
        ctx.violation("fails@%s:%d" % (g, i), "%s %s" % (rc, err[-300:]), {"case": "history:%s:" % g})
        return None
    rec, snaps = t.run_dir(ctx, d, "run")
    name = "%s:%d" % (g, i)

    def bad(key, detail):
        ctx.violation("%s@%s" % (key, name), detail, {"case": "history:%s:" % g})

    if "error" in rec or len(rec["sets"].get("time", {"rows": []})["rows"]) != n + 1:
        bad("reference", "wrong number of rows")
        return None
    sets = {k: v["rows"] for k, v in rec["sets"].items()}
    if any(len(v) != n + 1 for v in sets.values()):
        bad("rows", "%r" % {k: len(v) for k, v in sets.items()})
        return None
    bodies = sorted(k for k in rec["groups"])
    for k in range(n + 1):
        if abs(sets["time"][k][0] - float(p.time(k))) > min(1e-6 * (1 + abs(p.time(k))), p.dt / 4):
            bad("time", "row %d: %r instead of %s" % (k, sets["time"][k], p.time(k)))
        s = snaps.get(p.number(k))
        if s is None:
            if p.time(k) >= 0:
                bad("reference", "no snapshot of step %d" % k)
            continue
        for b in bodies:
            src = s["sets"].get(b)
            if src is None:
                bad("reference", "%s is not in the snapshot" % b)
                continue
            nxt = snaps.get(p.number(k + 1)) if k < n else None
            for q in NAMES:
                if q == "force_friction":
                    if nxt is None:
                        continue
                    want = nxt["sets"][b]["attrs"].get("friction_prev")
                else:
                    want = src["attrs"].get(q)
                if want is None:
                    continue
                got = sets[b + "/" + q][k]
                if not sim.close([sim.f32(x) for x in want], got, 2e-6):
                    bad("value", "%s/%s row %d: %r, snapshot %r" % (b, q, k, got, want))
            cols = src["cols"]
            if "gsum" in cols and "g" in cols:
                ig, gg = cols.index("gsum"), cols.index("g")
                acc, pr = 0.0, []
                for r in src["rows"]:
                    acc += r[ig] + r[gg]
                    pr.append(acc / float(p.dt))
                if not sim.close(sets[b + "/pressure"][k], pr, 3e-6, scale=max(abs(x) for x in pr)):
                    bad("profile", "%s/pressure row %d: %r, from the snapshot %r" % (b, k, sets[b + "/pressure"][k], pr))
            if "x" in cols:
                ix, iy = cols.index("x"), cols.index("y")
                pts = [(r[ix], r[iy]) for r in src["rows"]]
                fx = fy = 0.0
                for m, (a, c) in enumerate(zip(pts, pts[1:] + pts[:1])):
                    dx, dy = c[0] - a[0], c[1] - a[1]
                    q = sets[b + "/friction"][k][m] / (dx * dx + dy * dy) ** 0.5
                    fx -= dx * q
                    fy -= dy * q
                got = sets[b + "/force_friction"][k]
                if not sim.close([fx, fy], got[:2], 1e-5, scale=max(map(abs, sets[b + "/friction"][k]))):
                    bad("friction", "%s row %d: %r, from the profile %r" % (b, k, got, (fx, fy)))
    shutil.rmtree(d)
    return sets


class State:
    """what the directory should hold"""
    def __init__(self):
        self.rows, self.prof, self.snaps = (), None, ()

    def key(self):
        return (self.rows, self.prof, self.snaps)

    def after(self, p, k0, k1, profile):
        s = State()
        t0 = p.time(k0)
        kept = tuple(r for r in self.rows if r[0] < t0)
        new = tuple((p.time(k), p.i, k) for k in range(k0, k1 + 1))
        s.rows = kept + new
        # rows which have a profile
        old = None if self.prof is None else tuple(r for r in self.prof if r[0] < t0)
        s.prof = (old or ()) + new if profile else old
        sn = dict(self.snaps)
        for k in range(k0, k1 + 1):
            if p.saved(k):
                sn[p.number(k)] = (p.i, k)
        s.snaps = tuple(sorted(sn.items()))
        return s


def actions(g, st, thorough):
    """(name, problem, first step, last step, profile, snapshot)"""
    G = GROUPS[g]
    last = G.get("last", (1, 4))
    profs = (0, 1) if G.get("profiles") else (0,)
    for pr in profs:
        for k in last:
            yield "P%d.%d" % (k, pr), 0, 0, k, pr, None
        yield "Q%d.%d" % (last[-1] // 2, pr), 1, 0, last[-1] // 2, pr, None
        ends = last if "last" in G else (2, 5)
        seen = set()
        for f, (i, k) in st.snaps:
            for e in ends:
                e = max(e, k - 1)  # a finish before the start: no step
                if (f, e) in seen:
                    continue
                seen.add((f, e))
                yield "%s-%d.%d" % (f[:-3], e, pr), i, k, e, pr, f


def perform(ctx, t, g, d, st, a):
    name, i, k0, k1, pr, f = a
    p = Problem(g, i)
    args = ["--profile"] if pr else []
    if f is None:
        rc, err = t.flow(ctx, d, p.script(k1), args=args)
    else:
        rc, err = t.flow(ctx, d, 'S:load("results_run/%s"); %s; simulate()' % (f, p.finish(k1)), args=args)
    return rc, err, st.after(p, k0, k1, pr)


def judge(ctx, t, g, d, st, refs, case):
    rec, _ = t.run_dir(ctx, d, "run")
    bad = lambda key, detail: ctx.violation("%s@%s" % (key, case), detail, {"case": case})
    if rec is None or "error" in rec or "time" not in rec["sets"]:
        return bad("unreadable", "no record: %r" % (rec and rec.get("error")))
    sets = {k: v["rows"] for k, v in rec["sets"].items()}
    if any("unreadable" in v for v in sets.values()):
        return bad("unreadable", "series %r" % [k for k, v in sets.items() if "unreadable" in v])
    times = [r[0] for r in sets["time"]]
    # steps must be told apart
    tol = min(1e-6, float(F(GROUPS[g]["dt"])) / 4 / (1 + max([abs(float(r[0])) for r in st.rows] or [0])))
    want = [float(r[0]) for r in st.rows]
    if len(times) != len(want) or any(not isinstance(a, float) and not isinstance(a, int) or abs(a - b) > tol * (1 + abs(b)) for a, b in zip(times, want)):
        miss = [w for w in want if not any(not isinstance(x, str) and abs(w - x) < tol * (1 + abs(w)) for x in times)]
        return bad("steps", "%d rows %r..., expected %d; missing %r" % (len(times), times[-5:], len(want), miss[:5]))
    prof = {r: None for r in st.prof or ()}
    names = sorted(set(k for r in st.rows for k in refs[r[1]]) - {"time"})
    for q in names:
        isprof = q.split("/")[-1] in ("pressure", "friction")
        if q not in sets:
            if not isprof or st.prof:
                return bad("series", "%s is missing" % q)
            continue
        rows = sets[q]
        if not isprof and len(rows) != len(want):
            return bad("series", "%s has %d rows of %d" % (q, len(rows), len(want)))
        for n, r in enumerate(st.rows):
            ref = refs[r[1]].get(q)
            if ref is None:
                continue
            if isprof and r not in prof:
                continue
            if n >= len(rows):
                return bad("series", "%s has %d rows, row %d is missing" % (q, len(rows), n))
            if not sim.close(ref[r[2]], rows[n], 3e-6, scale=max(abs(x) for x in ref[r[2]]) if isprof else 0):
                return bad("content", "%s row %d (time %s): %r instead of %r" % (q, n, r[0], rows[n], ref[r[2]]))
        if isprof and len(rows) > len(want):
            return bad("series", "%s has %d rows of %d" % (q, len(rows), len(want)))
    with ctx.lock:
        ctx.nontrivial += bool(want)


def histories(ctx, t, g):
    refs = [reference(ctx, t, g, 0), reference(ctx, t, g, 1)]
    if None in refs:
        return
    depth = GROUPS[g].get("depth", 3) + (1 if ctx.thorough else 0)
    replay = ctx.replay_only.split(":")[2].split(",") if ctx.replay_only else None
    root = os.path.join(ctx.scratch, "h_" + g)
    os.makedirs(root + "/0")
    front, seen, count = [(State(), root + "/0", ())], {State().key()}, [0]
    nstates = ntrans = 0
    for level in range(depth):
        jobs = []
        for st, d, path in front:
            for a in actions(g, st, ctx.thorough):
                if replay and path + (a[0],) != tuple(replay[:level + 1]):
                    continue
                jobs.append((st, d, path, a))

        def one(job):
            st, d, path, a = job
            with ctx.lock:
                count[0] += 1
                w = "%s/n%d" % (root, count[0])
                ctx.evaluations += 1
            shutil.copytree(d, w)
            case = "history:%s:%s" % (g, ",".join(path + (a[0],)))
            rc, err, after = perform(ctx, t, g, w, st, a)
            if rc != 0:
                ctx.violation("fails@" + case, "%s %s" % (rc, err[-300:]), {"case": case})
                shutil.rmtree(w)
                return None
            judge(ctx, t, g, w, after, refs, case)
            keep = False
            with ctx.lock:
                if after.key() not in seen:
                    seen.add(after.key())
                    keep = level + 1 < depth
            if not keep:
                shutil.rmtree(w)
                return None
            return after, w, path + (a[0],)

        done = core.pmap(one, jobs, n=4)
        ntrans += len(jobs)
        for _, d, _ in front:
            shutil.rmtree(d)
        front = [x for x in done if x]
    nstates = len(seen)
    with ctx.lock:
        ctx.states = (ctx.states or 0) + nstates
        ctx.transitions = (ctx.transitions or 0) + ntrans
    ctx.sample("histories of %s: depth %d, %d states, %d transitions" % (g, depth, nstates, ntrans), 12)
    shutil.rmtree(root)


KILLED = ("vortices", "cylinder", "elastic")


def kills(ctx, t):
    so = t.faultio()
    jobs = []
    refs = {g: [reference(ctx, t, g, 0)] for g in KILLED}
    for g in KILLED:
        if refs[g][0] is None:
            continue
        p = Problem(g, 0)
        base = os.path.join(ctx.scratch, "kb_" + g)
        os.makedirs(base + "/fresh")
        t.flow(ctx, base + "/full", p.script(6), args=["--profile"])
        mid = [k for k in range(7) if p.saved(k)][1]
        for kind in ("fresh", "resumed"):
            if kind == "fresh":
                src, script, k0 = base + "/fresh", p.script(6), 0
            else:
                src, script, k0 = base + "/full", 'S:load("results_run/%s"); %s; simulate()' % (p.number(mid), p.finish(6)), mid
            for clock in ("0", "30"):
                # count the calls
                w = os.path.join(base, "c_%s_%s" % (kind, clock))
                shutil.copytree(src, w)
                log = w + "/fio.log"
                rc, err = t.flow(ctx, w, script, args=["--profile"], env={"LD_PRELOAD": so, "FIO_LOG": log, "FIO_CLOCK": clock})
                n = len(open(log).read().splitlines()) if os.path.exists(log) else 0
                if rc != 0 or not n:
                    ctx.violation("fails@killed:%s:%s:%s" % (g, kind, clock), "%s %s" % (rc, err[-300:]))
                    continue
                for mode in ("kill", "torn") if ctx.thorough else ("kill",):
                    for at in range(1, n + 1):
                        jobs.append((g, kind, clock, mode, at, src, script, k0))
    if ctx.replay_only:
        jobs = [j for j in jobs if "killed:%s:%s:%s:%s:%d" % j[:5] == ctx.replay_only]
    core.pmap(lambda j: killed(ctx, t, so, refs, *j), jobs)
    if jobs:
        ctx.sample("killed at each of %d calls, e.g. %s %s clock %s call %d" % ((len(jobs),) + jobs[len(jobs) // 2][:3] + (jobs[len(jobs) // 2][4],)), 16)


def killed(ctx, t, so, refs, g, kind, clock, mode, at, src, script, k0):
    case = "killed:%s:%s:%s:%s:%d" % (g, kind, clock, mode, at)
    p = Problem(g, 0)
    w = os.path.join(ctx.scratch, case.replace(":", "_"))
    shutil.copytree(src, w)
    log = w + "/fio.log"
    rc, err = t.flow(ctx, w, script, args=["--profile"], env={"LD_PRELOAD": so, "FIO_LOG": log, "FIO_CLOCK": clock, "FIO_AT": str(at), "FIO_MODE": mode})
    calls = open(log).read().splitlines() if os.path.exists(log) else []
    with ctx.lock:
        ctx.evaluations += 1
    if rc != -9 or len(calls) != at:
        # the number of calls may vary by a few (clock, compression): then the run just ends
        ctx.outcome("not reached")
    last = calls[-1] if calls else ""
    tearing = "stepdata_run" in last and last.endswith("+")
    # what the killed run has written itself, and what was there before it
    number = max([int(c.split("/")[-1].split(".")[0]) for c in calls if " open results_run/" in c] or [-1])
    rd = w + "/results_run"
    have = sorted(os.listdir(rd)) if os.path.isdir(rd) else []
    read = t.read(ctx, [rd + "/" + f for f in have])
    good = [f for f in have if "error" not in read[rd + "/" + f] and int(f[:-3]) <= max(number, int(p.number(k0)[:-3]) if kind == "resumed" else -1)]
    if good:
        n = good[-1]
        k = int((sim.frac(read[rd + "/" + n]["attrs"]["time"]) - p.t0) / p.dt)
        rc, err = t.flow(ctx, w, 'S:load("results_run/%s"); %s; simulate()' % (n, p.finish(6)), args=["--profile"])
    else:
        n = "the beginning"
        rc, err = t.flow(ctx, w, p.script(6), args=["--profile"])
    ctx.outcome("resumed from " + n)
    if rc != 0:
        # the step record was being rewritten by HDF5 when the process died
        key = "killed-inside-flush" if tearing and "vvflow ERROR" in err else "not-resumable"
        ctx.violation("%s@%s" % (key, case), "killed at call %s; resumed from %s: %s %s" % (last, n, rc, err[-200:]), {"case": case})
    else:
        st = State().after(p, 0, 6, True)
        judge(ctx, t, g, w, st, refs[g], case)
    shutil.rmtree(w)
