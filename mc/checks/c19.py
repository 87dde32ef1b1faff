import itertools
import os
import shutil
from fractions import Fraction

from mc import core, sim

RULE = ("every combination of 3 flows (inviscid, viscous, time dependent with gravity), 3 contents (none, vortices, vortices + "
        "sinks + streak sources and domains) and 10 body sets (none, fixed, slip, prescribed motion, free, elastic, mixed, driven pair, "
        "elastic chain, outer wall) in the plain setting, the full contents also with save periods of two steps, negative or late "
        "starts and profiles, plus 45 problems that run into collision limits; each is run once without interruption and then from every "
        "snapshot it wrote, in a new process and in one which has simulated another problem, from the file saved before the run, "
        "and stopped and continued in one process: the remaining snapshots (1e-9) and rows (single precision) must agree")

# step, save period, start, last step of the uninterrupted run, first number of a snapshot, options
SETTINGS = {
    "plain": ("1/20", "1/20", "0/1", 8, ()),
    "coarse": ("1/7", "2/7", "-2/7", 7, ("--profile",)),
    "late": ("3/100", "3/50", "6/5", 5, ("--profile",)),
}


def scripts(thorough):
    """(name, script up to simulate); every combination of the listed parts"""
    flows = {
        "visc": 'S.re=60; S.inf_vx="1"',
        "inv": 'S.inf_vx="1"; S.inf_vy="0.3"',
        "time": 'S.re=60; S.inf_vx="sin(3*t)+1"; S.inf_vy="t"; S.inf_g=0.3; S.gravity={0.2,-1}',
    }
    content = {
        "empty": "",
        "vort": 'S.vort_list:append({2,0.3,0.5},{2.1,0.2,-0.4},{1.6,-0.7,1},{2.05,0.31,0.2})',
        "all": 'S.vort_list:append({2,0.3,0.5},{2.1,0.2,-0.4}); S.sink_list:append({-2,1,0.7},{2.5,-1,-0.5}); S.streak_source_list:append({-0.9,0.1,3},{-0.8,-0.4,1}); S.streak_domain_list:append({-1,0.5,2}); S.dt_streak="1/10"',
    }
    cyl = 'local b=gen_cylinder{R=0.5,N=12}; S.body_list:insert(b); '
    bodies = {
        "none": "",
        "rigid": cyl,
        "slip": cyl + 'b.slip=true; b.label="sl"',
        "moving": cyl + 'b.holder_vx="0.3*cos(5*t)"; b.holder_vo="0.7"; b.holder_vy="t/2"',
        "free": cyl + 'b.spring_const={0,0,0}; b.density=2.5; b.holder_mo="0.3"',
        "elastic": cyl + 'b.spring_const={4,3,1}; b.spring_damping={0.1,0.2,0.3}; b.density=1.5; b.delta_pos={0.05,-0.02,0.1}; b.speed={0.1,0.3,-0.2}',
        "mixed": cyl + 'b.spring_const={inf,2,inf}; b.holder_vx="0.2"; b.holder_vo="1+t"; b.special_segment=3',
        "pair": cyl + 'local c=gen_ellipse{Rx=0.4,Ry=0.2,N=24}; c:move_r({1.3,0.4}); S.body_list:insert(c); c.root=b; b.holder_vo="0.6"; b.holder_vy="0.2"; c.holder_vo="-1"',
        "chain": cyl + 'local c=gen_ellipse{Rx=0.4,Ry=0.2,N=24}; c:move_r({1.3,0.4}); S.body_list:insert(c); b.root=c; b.spring_const={2,2,inf}; c.holder_vo="0.6"; c.spring_const={inf,5,1}; c.density=3',
        "wall": 'local b=gen_chamber_box{L=6,H=5,D=0.4,h=0.5,d=0.5,dls=0.6,dln=0.5}; b:move_r({0,-1.5}); S.body_list:insert(b); b.label="box"',
    }
    for f, c, b in itertools.product(flows, content, bodies):
        if b == "none" and c == "empty":
            continue
        for s in SETTINGS:
            if s != "plain" and not thorough and (c != "all" or f == "inv"):
                continue
            yield "%s.%s.%s.%s" % (s, f, c, b), "%s\n%s\n%s\n" % (flows[f], content[c], bodies[b])
    # limits which are hit within the run
    lim = {
        "x": "b.spring_const={0,inf,inf}; b.collision_max={0.07,nan,nan}; S.gravity={4,1}",
        "y": "b.spring_const={inf,1,inf}; b.collision_min={nan,-0.05,nan}; b.collision_max={nan,-0.02,nan}; S.gravity={0,-5}",
        "o": "b.spring_const={inf,inf,0.2}; b.collision_min={nan,nan,-0.25}; b.collision_max={nan,nan,0.11}; b.holder_mo='30'; b.delta_pos.r={0.1,0}",
        "turn": "b.spring_const={inf,inf,0}; b.speed.o=3; b.collision_max={nan,nan,0.03}; b.holder_mo='-3'",
        "xy": "b.spring_const={0,0,inf}; b.collision_max={0.07,0.11,nan}; S.gravity={4,5}",
    }
    for l, bo in itertools.product(lim, ("0", "0.5", "1")):
        for f in flows:
            yield "plain.%s.limit.%s%s" % (f, l, bo), "%s\n%s b.density=50; b.bounce=%s; %s\n" % (flows[f], cyl, bo, lim[l])


def tail(setting, caption, last=None):
    dt, sv, t0, n, _ = SETTINGS[setting]
    return 'S.dt="%s"; S.dt_save="%s"; S.time="%s"; S.finish=%.17g; S.caption="%s"\n' % (dt, sv, t0, Fraction(t0) + Fraction(dt) * (n if last is None else last), caption)


def run(ctx):
    t = sim.Tools()
    cases = list(scripts(ctx.thorough))
    if ctx.replay_only is not None:
        cases = [c for c in cases if c[0] == ctx.replay_only.split("@")[0].split(":")[-1]]

    def one(case):
        name, text = case
        try:
            return problem(ctx, t, name, text)
        except Exception as e:
            import traceback
            traceback.print_exc()
            raise
    core.pmap(one, cases)
    ctx.rule = RULE


def problem(ctx, t, name, text):
    d = os.path.join(ctx.scratch, name)
    setting = name.split(".")[0]
    dt, sv, t0, n, opts = SETTINGS[setting]
    dt, sv, t0 = Fraction(dt), Fraction(sv), Fraction(t0)
    N = n + 1
    saved = [k for k in range(N) if (t0 + k * dt) % sv == 0 and t0 + k * dt >= 0]
    full = text + tail(setting, "run")
    rc, err = t.flow(ctx, d + "/ref", full + 'S:save("start.h5"); simulate()', args=opts)
    if not ctx.check(rc == 0, "fails@" + name, lambda: err[-500:]):
        return
    ref, snaps = t.run_dir(ctx, d + "/ref", "run")
    nums = sorted(snaps)
    if not ctx.check(len(nums) == len(saved) and ref and len(ref["sets"]["time"]["rows"]) == N and "error" not in ref, "incomplete@" + name, lambda: "%r" % nums):
        return

    def judge(where, key, i, k):
        sd, sn = t.run_dir(ctx, where, "run")
        with ctx.lock:
            ctx.evaluations += 1
            ctx.nontrivial += 1
        want = nums[i:]
        if sorted(sn) != want:
            return ctx.violation("%s@%s" % (key, name), "from snapshot %d: snapshots %r instead of %r" % (k, sorted(sn), want), {"case": name})
        for n in want:
            df = sim.compare(snaps[n], sn[n], 1e-9, sim.INCIDENTAL)
            if df:
                return ctx.violation("%s@%s" % (key, name), "from snapshot %d: %s: %s" % (k, n, df), {"case": name})
        cut = {"attrs": ref["attrs"], "sets": {p: dict(v, rows=v["rows"][k:], dims=[len(v["rows"][k:]), v["dims"][1]]) for p, v in ref["sets"].items()}}
        df = sim.compare(cut, sd, 3e-6, sim.INCIDENTAL)
        if df:
            ctx.violation("%s@%s" % (key, name), "from snapshot %d: step record: %s" % (k, df), {"case": name})

    for i, (k, n) in enumerate(zip(saved, nums)):
        w = "%s/r%d" % (d, k)
        os.makedirs(w)
        shutil.copy(d + "/ref/results_run/" + n, w + "/from.h5")
        rc, err = t.flow(ctx, w, file="from.h5", args=opts)
        if ctx.check(rc == 0, "resume-fails@" + name, lambda: err[-300:]):
            judge(w, "resumed", i, k)
        # the same in a process which has simulated something else, and stopped and gone on
        if i in (0, 3, 5) or ctx.thorough:
            w2 = "%s/s%d" % (d, k)
            os.makedirs(w2)
            shutil.copy(w + "/from.h5", w2 + "/from.h5")
            other = text + tail(setting, "other", 2) + 'S.body_list:insert(gen_cylinder{R=0.2,N=6}); S.body_list[#S.body_list]:move_r({4,4}); simulate()\n'
            rc, err = t.flow(ctx, w2, other + 'S:load("from.h5"); simulate()', args=opts)
            if ctx.check(rc == 0, "resume-fails@" + name, lambda: err[-300:]):
                judge(w2, "resumed-after-another", i, k)
        shutil.rmtree(w)
    # started from the saved problem
    w = d + "/saved"
    os.makedirs(w)
    shutil.copy(d + "/ref/start.h5", w + "/start.h5")
    rc, err = t.flow(ctx, w, 'S:load("start.h5"); simulate()', args=opts)
    if ctx.check(rc == 0, "saved-fails@" + name, lambda: err[-300:]):
        judge(w, "saved-first", 0, 0)
    # stopped and continued in one process without any file
    for k in (1, 4):
        w = "%s/c%d" % (d, k)
        rc, err = t.flow(ctx, w, text + tail(setting, "run", k) + "simulate(); S.finish=%.17g; simulate()" % (t0 + dt * (N - 1)), args=opts)
        if ctx.check(rc == 0, "continue-fails@" + name, lambda: err[-300:]):
            judge(w, "continued", 0, 0)
    ctx.sample("%s: %d steps, resumed from each of %d snapshots" % (name, N, len(nums)), 6)
    shutil.rmtree(d)
