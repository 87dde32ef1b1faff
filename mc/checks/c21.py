import os
import shutil

from mc import core, sim

RULE = ("Scenarios: saving a problem (new file, over an existing one, several after each other, again after a failure that the script caught), "
        "simulating (with profiles, sensors, streaks, from a script and from a file, caught by the script), resuming, packing and drawing plots, extracting. "
        "In each, every call that changes a file (mkdir, open, write, truncation, close; the writes of streams included) is made to fail in turn: "
        "once with ENOSPC, once with EIO, with all later ones, after half of the data, and (which is no failure) with half of the data accepted. "
        "Lists and rows beyond the buffers of the library are among them. Extraction: every limit of the size of the output, a full device and a closed one. Oracle: the status is non-zero and no signal ended the "
        "program, or every output is exactly as without the failure; files that are not outputs of the run, and snapshots written before, are untouched. "
        "Non-trivial: a failure that was met.")

MODES = ("enospc", "eio", "sticky", "short", "partial")

PROBLEM = '''
S.caption="c"; S.dt="1/10"; S.dt_save="2/10"; S.finish=0.5; S.inf_vx="1"; S.re=100; S.dt_streak="1/10"
S.streak_source_list:append({-1,0.1,0})
b=gen_cylinder{R=0.5,N=12}; S.body_list:insert(b)
c=gen_cylinder{R=0.25,N=8}; c:move_r({2,0}); S.body_list:insert(c)
'''
BIG = PROBLEM + "for i=1,2000 do S.vort_list:append({3+i/100,math.sin(i*i),math.cos(i)}) end\n"
HUGE = 'S.caption="c"; local p={0,0,0}; for i=1,60000 do p[1]=i/100; p[2]=math.sin(i*i); p[3]=math.cos(i); S.vort_list:append(p) end\n'


class Scenario:
    """cmd: list, inputs: {file: content} besides those from prep; outs: outputs; over: outputs that exist before;
    early: outputs which stay once written"""
    def __init__(self, name, cmd, prep="", files=None, outs=(), caught=False, gnuplot=False, bound=None):
        self.name, self.cmd, self.prep, self.files, self.outs, self.caught, self.gnuplot, self.bound = name, cmd, prep, files or {}, list(outs), caught, gnuplot, bound


def scenarios(t):
    record = core.build_harness("c21", "plain")
    flow, plot = t.vvflow, t.vvplot
    run_outs = ["results_c/%06d.h5" % i for i in (0, 2, 4)] + ["stepdata_c.h5"]
    save = PROBLEM + 'S:save("in.h5")\n'
    simulated = save + "simulate()\n"
    S = [
        Scenario("save", [flow, "run.lua"], files={"run.lua": PROBLEM + 'S:save("a.h5")'}, outs=["a.h5"]),
        Scenario("save-big", [flow, "run.lua"], files={"run.lua": BIG + 'S:save("a.h5")'}, outs=["a.h5"]),
        # a list beyond the buffer of 1 MB: the writes fail at once rather than at the end
        Scenario("save-huge", [flow, "run.lua"], files={"run.lua": HUGE + 'S:save("a.h5")'}, outs=["a.h5"]),
        Scenario("save-over", [flow, "run.lua"], prep='S.caption="old"; S:save("a.h5"); S.caption="other"; S:save("b.h5")', files={"run.lua": PROBLEM + 'S:save("a.h5")'}, outs=["a.h5"]),
        Scenario("save-two", [flow, "run.lua"], files={"run.lua": PROBLEM + 'S:save("a.h5"); S.vort_list:append({1,2,3}); S:save("b.h5")'}, outs=["a.h5", "b.h5"]),
        # the failure is caught; afterwards everything works again
        Scenario("save-again", [flow, "run.lua"], files={"run.lua": PROBLEM + 'local ok,e=pcall(S.save,S,"a.h5"); if not ok then assert(type(e)=="string" and #e>0) end\n'
                 'S:save("b.h5"); if ok then os.rename("a.h5","ok.h5") end'}, outs=["b.h5"], caught=True),
        Scenario("load-again", [flow, "run.lua"], prep=save, files={"run.lua": PROBLEM + 'pcall(S.save,S,"a.h5"); S:load("in.h5"); S:save("b.h5")'}, outs=["b.h5"], caught=True),
        Scenario("simulate", [flow, "run.lua"], prep=save, files={"run.lua": 'S:load("in.h5"); simulate()'}, outs=run_outs),
        Scenario("simulate-file", [flow, "in.h5"], prep=save, outs=run_outs),
        Scenario("simulate-all", [flow, "--profile", "--progress", "-s", "sens", "in.h5"], prep=save, files={"sens": "0.1 0.6\n-0.3 0.8\n"}, outs=run_outs + ["velocity_c"]),
        Scenario("simulate-alone", [flow, "run.lua"], files={"run.lua": 'S.caption="c"; S.dt="1/10"; S.dt_save="5/10"; S.finish=1; S.vort_list:append({1,0,1},{0,1,-1}); simulate()'},
                 outs=["results_c/000000.h5", "results_c/000005.h5", "results_c/000010.h5", "stepdata_c.h5"]),
        # what could not be written is reported to the script, which goes on
        Scenario("simulate-caught", [flow, "run.lua"], prep=save, files={"run.lua": 'S:load("in.h5"); local ok,e=pcall(simulate)\nS:load("in.h5"); S.caption="d"; simulate(); os.exit(ok and 0 or 7)'},
                 outs=run_outs + [f.replace("_c", "_d") for f in run_outs]),
        Scenario("resume", [flow, "results_c/000002.h5"], prep=simulated, outs=["results_c/000002.h5", "results_c/000004.h5", "stepdata_c.h5"]),
        Scenario("resume-further", [flow, "run.lua"], prep=simulated, files={"run.lua": 'S:load("results_c/000004.h5"); S.finish=0.9; simulate()'},
                 outs=["results_c/000004.h5", "results_c/000006.h5", "results_c/000008.h5", "stepdata_c.h5"]),
        # rows beyond the buffer of 1 MB
        Scenario("record-huge", [record, "s.h5", "5"], outs=["s.h5"]),
        Scenario("pack", [plot, "-B", "-G", "-V", "--tar", "-x", "-2,3", "-y", "-1,1", "--size", "60x40", "--res-hi", "40", "--res-lo", "30", "results_c/000004.h5", "out.tar"], prep=simulated, outs=["out.tar"]),
        Scenario("draw", [plot, "-B", "-G", "-S", "-x", "-2,3", "-y", "-1,1", "--size", "60x40", "--res-hi", "40", "--res-lo", "30", "results_c/000004.h5", "out.png"], prep=simulated, outs=["out.png", "script"], gnuplot=True),
    ]
    return S


FAKE = '''#!/bin/sh
# stands in for gnuplot: prints the script and all data it refers to
n=$(sed -e "s,/dev/fd/[0-9]*,FD,g" "$1")
echo "$n"
for f in $(grep -o "/dev/fd/[0-9]*" "$1"); do cat "$f"; done
'''


def setup(ctx, t, sc, d):
    os.makedirs(d)
    if sc.prep:
        rc, err = t.flow(ctx, d, sc.prep)
        if rc != 0:
            raise core.CheckError("preparing %s: %s" % (sc.name, err[-500:]))
        os.remove(d + "/run.lua")
    for n, text in sc.files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(text)
    if sc.gnuplot:
        os.makedirs(d + "/bin")
        with open(d + "/bin/gnuplot", "w") as f:
            f.write(FAKE)
        os.chmod(d + "/bin/gnuplot", 0o755)


def go(ctx, t, so, sc, d, at=None, mode=None, log=None):
    env = dict(os.environ, OMP_NUM_THREADS="1", LD_PRELOAD=so, FIO_STDIO="1")
    env.pop("FIO_ONLY", None)
    if sc.gnuplot:
        env["PATH"] = d + "/bin:" + env["PATH"]
        # the stand-in is not to fail itself
        env["FIO_SELF"] = "vvplot"
    if at:
        env.update(FIO_AT=str(at), FIO_MODE=mode)
    if log:
        env["FIO_LOG"] = log
    rc, out, err = ctx.call(sc.cmd, d, timeout=120, env=env)
    return rc, err.decode(errors="replace")


def tree(d):
    res = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            with open(q, "rb") as h:
                res[os.path.relpath(q, d)] = h.read()
    return res


def run(ctx):
    t = sim.Tools()
    so = t.faultio()
    jobs = []
    for sc in scenarios(t):
        base = os.path.join(ctx.scratch, sc.name)
        setup(ctx, t, sc, base + ".base")
        before = tree(base + ".base")
        ref = base + ".ref"
        shutil.copytree(base + ".base", ref, symlinks=True)
        log = base + ".log"
        rc, err = go(ctx, t, so, sc, ref, log=log)
        outs = [o for o in sc.outs if o != "script"]
        if rc != 0 or any(not os.path.exists(ref + "/" + o) for o in outs):
            # what works without failures is the subject of other checks
            raise core.CheckError("%s without failures: %s %s" % (sc.name, rc, err[-500:]))
        want = {o: None for o in outs}
        parsed = t.read(ctx, [ref + "/" + o for o in outs if o.endswith(".h5")])
        for o in outs:
            want[o] = parsed[ref + "/" + o] if o.endswith(".h5") else open(ref + "/" + o, "rb").read()
        calls = [l.split(" ", 2) for l in open(log).read().splitlines()]
        ctx.extra.setdefault("calls", {})[sc.name] = len(calls)
        for n, kind, path in calls:
            for mode in MODES:
                if mode in ("short", "partial") and "write" not in kind:
                    continue
                if mode == "sticky" and sc.caught:
                    continue
                jobs.append((sc, base, before, want, int(n), mode, "%s %s" % (kind, os.path.basename(path.split(" +")[0])) if "memfd" not in path else kind + " memfd"))
    if ctx.replay_only is not None:
        jobs = [j for j in jobs if name(*j) == ctx.replay_only]
    core.pmap(lambda j: one(ctx, t, so, *j), jobs)
    stdout(ctx, t)
    ctx.rule = RULE


def name(sc, base, before, want, n, mode, what):
    return "%s:%d:%s" % (sc.name, n, mode)


def one(ctx, t, so, sc, base, before, want, n, mode, what):
    k = name(sc, base, before, want, n, mode, what)
    d = "%s.%d.%s" % (base, n, mode)
    shutil.copytree(base + ".base", d, symlinks=True)
    try:
        judge(ctx, t, so, sc, base, before, want, n, mode, what, k, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(ctx, t, so, sc, base, before, want, n, mode, what, k, d):
    log = d + ".log"
    rc, err = go(ctx, t, so, sc, d, n, mode, log)
    after = tree(d)
    met = sum(1 for l in open(log)) >= n if os.path.exists(log) else False
    if os.path.exists(log):
        os.remove(log)

    def bad(kind, detail):
        ctx.violation("%s:%s:%s@%s" % (kind, sc.name, what, k), detail, {"case": k})
    with ctx.lock:
        ctx.evaluations += 1
        if met:
            ctx.nontrivial += 1
    if rc == "timeout":
        return bad("hang", "does not end after %s fails" % what)
    if rc < 0 or rc > 128:
        return bad("crash", "status %s after %s fails with %s: %s" % (rc, what, mode, err[-300:]))
    for f, c in before.items():
        if f not in want and after.get(f) != c:
            return bad("damage", "%s is %s after %s failed" % (f, "gone" if f not in after else "changed", what))
    if rc == 0:
        parsed = t.read(ctx, [d + "/" + o for o in want if o.endswith(".h5")])
        for o, w in want.items():
            if o not in after:
                return bad("success", "status 0 although %s failed (%s); %s is missing" % (what, mode, o))
            e = sim.compare(parsed[d + "/" + o], w, 0, skip=("time_local",)) if o.endswith(".h5") else None if after[o] == w else "other contents"
            if e:
                return bad("success", "status 0 although %s failed (%s); %s: %s" % (what, mode, o, e))
        # a lost message about a file that is complete on the disk is a lost error all the same
        if mode in ("enospc", "eio", "sticky", "short") and met and not sc.caught and not harmless(what, sc):
            return bad("unreported", "status 0 although %s failed (%s)" % (what, mode))
    elif mode == "partial" and "write" in what:
        return bad("partial", "status %s because %s took only a part of the data: %s" % (rc, what, err[-300:]))
    elif not err.strip() and not sc.caught and "exit" not in sc.files.get("run.lua", ""):
        return bad("silent", "status %s without a word" % rc)
    elif mode == "enospc":
        # snapshots written before stay
        done = [o for o in want if o.startswith("results_") and o in after]
        ctx.sample("%s, %s fails: status %s, %d other files intact" % (k, what, rc, len(before) - len(want)))


def harmless(what, sc):
    # a directory that is there already
    return what.startswith("mkdir") and sc.prep.find("simulate") >= 0


def stdout(ctx, t):
    d = os.path.join(ctx.scratch, "x")
    rc, err = t.flow(ctx, d, BIG + 'S:save("in.h5"); simulate()')
    cmds = [(a, [t.vvxtract] + a) for a in (["in.h5"], ["-l", "in.h5"], ["in.h5", "vort"], ["in.h5", "body00", "vort"], ["stepdata_c.h5"], ["stepdata_c.h5", "time", "body00/force_hydro"], ["-l", "stepdata_c.h5"], ["--version"], ["--help"])]
    jobs = []
    for a, c in cmds:
        rc, out, err = ctx.call(c, d)
        if rc != 0:
            raise core.CheckError("%s: %s" % (a, rc))
        n = len(out)
        step = 1 if n < 300 or ctx.thorough and n < 5000 else max(1, n // (2000 if ctx.thorough else 60))
        limits = sorted(set(list(range(0, n, step)) + [k for k in (1, 4095, 4096, 4097, 8192, n - 1) if 0 <= k < n]))
        jobs += [(a, c, "limit %d" % k, n) for k in limits] + [(a, c, "full", n), (a, c, "closed", n), (a, c, "limit %d" % n, n)]
    if ctx.replay_only is not None:
        jobs = [j for j in jobs if "%s > %s" % (" ".join(j[0]), j[2]) == ctx.replay_only]

    def one(j):
        a, c, how, n = j
        k = "%s > %s" % (" ".join(a), how)
        o = os.path.join(ctx.scratch, "out%d" % abs(hash(k)))
        if how == "full":
            sh = 'exec "$@" > /dev/full'
        elif how == "closed":
            sh = 'exec "$@" >&-'
        else:
            # a limit of the size of files: writes beyond it fail
            sh = "trap '' XFSZ; exec prlimit --fsize=%s \"$@\" > %s" % (how.split()[1], o)
        rc, out, err = ctx.call(["sh", "-c", sh, "sh"] + c, d)
        with ctx.lock:
            ctx.evaluations += 1
            ctx.nontrivial += 1
        fits = how == "limit %d" % n
        if fits:
            if rc != 0:
                ctx.violation("partial@" + k, "status %s although everything fits" % rc, {"case": k})
        elif rc == 0:
            ctx.violation("unreported:stdout@" + k, "status 0 although only a part of %d bytes could be printed" % n, {"case": k})
        elif rc == "timeout" or rc < 0 or rc > 128:
            ctx.violation("crash:stdout@" + k, "status %s" % rc, {"case": k})
        if os.path.exists(o):
            os.remove(o)
    core.pmap(one, jobs)
