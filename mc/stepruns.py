"""The problems whose every step C27 and C28 compare with the reference (mc/stepref.py)."""
import itertools
import multiprocessing
import os
import shutil

from mc import core, sim, stepref

FLOWS = {
    "still": "",
    "inv": 'S.inf_vx="1"; S.inf_vy="0.3"',
    "visc": 'S.re=60; S.inf_vx="1"',
    "slow": 'S.re=5; S.inf_vx="0.7*sin(3*t)+0.5"; S.inf_vy="0.4*t"; S.inf_g=0.3; S.gravity={0.2,-1}',
    "jet": 'S.re=300; S.inf_vx="cos(2*t)"; S.inf_vy="-0.2"; S.sink_list:append({-2,0.4,0.7},{1.8,-0.6,-0.5},{0.9,0.55,0.2})',
}
V = "S.vort_list:append(%s)"
CONTENT = {
    "none": "",
    "one": V % "{1.1,0.3,0.5}",
    "pair": V % "{1.1,0.3,0.5},{1.25,0.2,-0.4}",
    "same": V % "{1.1,0.3,0.5},{1.13,0.32,0.25}",
    "foreign": V % "{1.1,0.3,-0.5},{1.3,0.2,0.4},{1.15,0.5,0.3},{1.9,-0.3,-0.2}",
    "close": V % "{0.9,0.1,0.3},{0.92,0.11,0.2},{0.9,0.14,-0.25},{0.8,-0.4,0.1},{0.81,-0.42,0.15},{1.5,0.1,-0.05}",
    "upstream": V % "{-0.62,0.11,0.8},{-0.6,-0.2,-0.7},{-0.65,0.3,0.05},{-1.1,0.01,2}",
    "faint": V % "{1.1,0.3,1e-11},{1.2,0.1,-3e-11},{0.9,-0.3,2e-10},{1,0,0},{1.05,-0.2,0.3}",
    "row": V % ",".join("{%g,%g,%g}" % (0.75 + 0.11 * i, 0.3 - 0.013 * i * i, (-1) ** (i // 3) * (0.05 + 0.01 * i)) for i in range(13)),
    "ink": (V % "{1.1,0.3,0.5},{1.3,-0.2,0.4}") + '; S.streak_source_list:append({-0.9,0.1,3},{-0.8,-0.4,0}); S.streak_domain_list:append({-0.56,0.12,2},{1,0.5,1}); S.dt_streak="1/5"',
}
HEX = 'local b=load_body("hex"); S.body_list:insert(b); '
PENTA = 'local c=gen_cylinder{R=0.3,N=5}; c:move_d(17); c:move_r({1.4,0.25}); S.body_list:insert(c); '
HEAVY = HEX + 'b.spring_const={0,0,0}; b.density=1e6; '
BODY = {
    "none": "",
    "rigid": HEX,
    "square": 'local b=load_body("square"); S.body_list:insert(b); b.special_segment=2',
    "slip": HEX + "b.slip=true",
    "partslip": 'local b=load_body("part"); S.body_list:insert(b); ',
    "moving": HEX + 'b.holder_vx="0.3*cos(5*t)"; b.holder_vo="0.7"; b.holder_vy="t/2"',
    "spinning": HEX + 'b.holder_vo="2"; b.holder_pos={0.1,0.05,0}',
    "free": HEX + 'b.spring_const={0,0,0}; b.density=2.5; b.holder_mo="0.3*cos(4*t)"',
    "elastic": HEX + 'b.spring_const={4,3,1}; b.spring_damping={0.1,0.2,0.3}; b.density=1.5; b.delta_pos={0.05,-0.02,0.1}; b.speed={0.1,0.3,-0.2}',
    "slipmoving": HEX + 'b.slip=true; b.holder_vx="0.4"; b.holder_vo="-1"',
    "two": HEX + PENTA,
    "driven": HEX + PENTA + 'c.root=b; b.holder_vo="0.6"; b.holder_vy="0.2"; c.holder_vo="-1"; c.delta_pos={0.04,-0.03,0.2}',
    "carried": HEX + PENTA + 'c.root=b; b.spring_const={inf,inf,2}; b.spring_damping={0,0,0.5}; b.holder_mo="exp(-t)"; c.delta_pos={0,0.02,0}',
    "chain": HEX + PENTA + 'local e=load_body("small"); e:move_r({2.1,-0.2}); S.body_list:insert(e); e.root=c; c.root=b; b.holder_vo="0.6"; c.spring_const={inf,5,1}; c.density=3; e.holder_vx="0.2"; e.holder_vo="1+t"',
    "limit": HEX + 'b.spring_const={0,0,0.5}; b.density=20; b.bounce=0.5; b.collision_max={0.03,nan,nan}; b.collision_min={nan,-0.02,-0.05}; b.speed={0.2,-0.1,-0.3}',
    # so heavy that the flow does not change their speed
    "heavyx": HEAVY + 'b.holder_vx="0.3"; b.bounce=0.5; b.collision_max={0.1,nan,nan}',
    "heavyy": HEAVY + 'b.holder_vy="-0.4"; b.bounce=1; b.collision_min={nan,-0.09,nan}; b.collision_max={nan,0.01,nan}',
    "heavyo": HEAVY + 'b.holder_vo="0.5"; b.bounce=0; b.collision_max={nan,nan,0.12}',
    "heavyo2": HEAVY + 'b.holder_vo="-0.8"; b.bounce=0.75; b.collision_max={nan,nan,0.02}; b.collision_min={nan,nan,-0.1}',
    "shuttle": HEAVY + 'b.holder_vx="0.6"; b.holder_vo="-1.1"; b.bounce=0.9; b.collision_max={0.1,nan,0.1}; b.collision_min={-0.03,nan,-0.13}',
    "heavytwo": HEAVY + PENTA + 'c.root=b; b.holder_vx="-0.3"; b.bounce=0.25; b.collision_min={-0.1,nan,nan}; c.spring_const={0,0,0}; c.holder_vy="0.3"; c.density=1e6; c.bounce=0.6; c.collision_max={nan,0.33,nan}',
    "room": 'local b=load_body("room"); S.body_list:insert(b); ',
}
TIMES = {"0": ("1/10", "0/1"), "neg": ("1/20", "-1/10"), "late": ("1/12", "13/6")}
STEPS = 6

FILES = {
    "hex": "0.5 0.09\n0.19 -0.47\n-0.24 -0.44\n-0.49 -0.05\n-0.21 0.43\n0.26 0.41\n",
    "square": "0.48 0.05\n0.03 -0.51\n-0.5 -0.04\n-0.07 0.49\n",
    "small": "0.19 0.01\n0.02 -0.2\n-0.21 -0.03\n-0.01 0.18\n",
    "part": "0.5 0.02 0\n0.31 -0.4 1\n-0.2 -0.45 1\n-0.5 0.03 0\n-0.22 0.41 0\n0.3 0.38 1\n",
    # turned the other way round: the flow is inside
    "room": "2.3 0.9\n2.2 -1\n-1.6 -1.1\n-1.5 1\n0.4 1.2\n"[::1],
    "sensors": "1.35 0.7\n-0.7 0.44\n0.81 -0.61\n",
}


def room_inside_out():
    # the generators give bodies with positive area; the room needs a negative one
    pts = [tuple(map(float, l.split()[:2])) for l in FILES["room"].splitlines()]
    a = sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1])) / 2
    part = [tuple(map(float, l.split()[:2])) for l in FILES["part"].splitlines()]
    p = sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(part, part[1:] + part[:1])) / 2
    return FILES["room"] if a * p < 0 else "\n".join(reversed(FILES["room"].splitlines())) + "\n"


def table(thorough):
    for f, c, b, t in itertools.product(FLOWS, CONTENT, dict(BODY, **MORE) if thorough else BODY, TIMES):
        if f == "still" and c == "none" and b in ("none", "rigid", "slip", "square", "partslip", "two", "room"):
            continue
        yield "%s.%s.%s.%s" % (f, c, b, t + ("+" if thorough else ""))


MORE = {
    "fine": 'local b=gen_cylinder{R=0.5,N=40}; S.body_list:insert(b); b.label="F"',
    "finemoving": 'local b=gen_cylinder{R=0.5,N=33}; S.body_list:insert(b); b.spring_const={3,inf,1}; b.holder_vy="0.3"; b.density=2',
    "twofine": 'local b=gen_cylinder{R=0.5,N=24}; S.body_list:insert(b); local c=gen_ellipse{Rx=0.4,Ry=0.2,N=24}; c:move_r({1.5,0.3}); S.body_list:insert(c); c.label="second"; c.spring_const={inf,4,2}; c.root=b; b.holder_vo="1"',
    "many": 'for i=1,12 do local b=gen_cylinder{R=0.1+0.01*i,N=3+i%3}; b:move_d(7*i); b:move_r({0.6*i,0.3*(i%4)}); S.body_list:insert(b); if i%3==0 then b.holder_vx="0.1*t" elseif i%3==1 then b.spring_const={1,2,3}; b.density=4 end end',
}


def record_table(thorough):
    for i, n in enumerate(table(thorough)):
        if thorough or i % 3 == sum(map(len, n.split(".")[:3])) % 3:
            yield n
    for f, c, b in itertools.product(FLOWS, CONTENT, BODY):
        if c in ("none", "close", "ink"):
            yield "%s.%s.%s.neg.bare" % (f, c, b)
    for f, c, b in itertools.product(FLOWS, CONTENT, MORE):
        if not thorough and c in ("none", "foreign", "upstream"):
            yield "%s.%s.%s.0" % (f, c, b)
    for f, b in itertools.product(("inv", "slow"), ("square", "limit", "none")):
        yield "%s.one.%s.late.long" % (f, b)


def steps(name):
    return 262 if name.endswith(".long") else STEPS + 14 * (name.count("+"))


def script(name):
    f, c, b, t = name.split(".")[:4]
    t = t.rstrip("+")
    dt, t0 = TIMES[t]
    n, d = map(int, dt.split("/"))
    m, e = map(int, t0.split("/"))
    last = m / e + n / d * steps(name)
    return ('local inf,nan=1/0,0/0; %s; %s; %s; S.dt="%s"; S.dt_save="%s"; S.time="%s"; S.finish=%.17g; S.caption="run"; S:save("start.h5"); simulate()'
            % (FLOWS[f], CONTENT[c], dict(BODY, **MORE)[b], dt, "1/60" if t == "late" else dt, t0, last)).replace("; ;", ";").replace("; ;", ";")


def run_one(ctx, t, name):
    """The files of a run: (start, [(number, snapshot)], record, sensor lines) or an error text"""
    d = os.path.join(ctx.scratch, name)
    os.makedirs(d)
    for k, v in FILES.items():
        with open(os.path.join(d, k), "w") as f:
            f.write(room_inside_out() if k == "room" else v)
    rc, err = t.flow(ctx, d, script(name), args=([] if name.endswith(".bare") else ["--profile"]) + ["--sensors", "sensors"], timeout=60)
    try:
        if rc:
            return "exit %s %s" % (rc, err[-300:])
        rd = d + "/results_run"
        names = sorted(os.listdir(rd))
        files = t.read(ctx, [d + "/start.h5", d + "/stepdata_run.h5"] + [rd + "/" + n for n in names])
        with open(d + "/velocity_run") as f:
            sens = [list(map(float, l.split())) for l in f]
        for k, v in files.items():
            if "error" in v:
                return "%s: %s" % (k, v["error"])
        return files[d + "/start.h5"], [files[rd + "/" + n] for n in names], files[d + "/stepdata_run.h5"], sens
    finally:
        shutil.rmtree(d)


_job = None


def _call(i):
    return _job(i)


def fork_map(fn, items):
    """Like core.pmap with processes: fn may compute for long"""
    global _job
    _job = fn
    with multiprocessing.get_context("fork").Pool(core.NCPU) as p:
        return p.map(_call, items, chunksize=4)
