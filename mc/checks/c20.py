import hashlib
import os
import re
import shutil
import subprocess

from mc import core, sim

RULE = ("Simulations (single and several bodies, moving, elastic, colliding, slip, expressions in time, viscous and not, no bodies, sensors) and plots of every field "
        "(each reference frame, each component) run under a replaced OpenMP runtime. Conflicts: teams of 64 and 97 (129) threads of which every one gets single iterations; "
        "all memory accesses of the library and the tools are watched, and two by different threads to the same byte, one of them a write, with neither a barrier nor "
        "a common lock between are a conflict, whatever the schedule was. Schedules: in every parallel region, the others following the default, all choices of the thread "
        "that goes on at region starts, chunks of iterations, critical sections and barriers, up to 2 (3) preemptions, with teams of 2 and 3, "
        "and all sizes of teams 1..8 with every policy and chunk size; and the ordinary runtime with 1..8 threads. Oracle: output, snapshots, step record, sensors and "
        "packages equal those of a single thread bit for bit. Non-trivial: an execution in which a thread other than the first had part.")

HEAD = 'S.caption="c"; S.dt="1/10"; S.dt_save="2/10"; S.inf_vx="1"; S.re=100\n'
DUMP = '''
local function p(...) local r={} for i,v in ipairs{...} do r[i]=string.format("%a",v) end print(table.concat(r," ")) end
local function list(l) for _,v in ipairs(l) do p(v.r.x,v.r.y,v.g) end end
list(S.vort_list) list(S.streak_domain_list)
for _,b in ipairs(S.body_list) do p(b.holder_pos[1],b.holder_pos[2],b.holder_pos[3],b.delta_pos[1],b.delta_pos[2],b.delta_pos[3],b.speed[1],b.speed[2],b.speed[3]) end
'''

CLOUD = "for i=1,%d do local a=i*2.4; S.vort_list:append({3+0.11*math.sqrt(i)*math.cos(a),0.11*math.sqrt(i)*math.sin(a),0.01*math.cos(i*7)}) end\n"


def problems():
    """name: (script before simulate(), options)"""
    one = 'b=gen_cylinder{R=0.5,N=%d}; S.body_list:insert(b)\n'
    return {
        "cylinder": (HEAD + one % 14 + CLOUD % 30 + 'S.finish=0.1; S.dt_streak="1/10"; S.streak_source_list:append({-1,0.1,0})\n', []),
        "two": (HEAD + one % 10 + 'c=gen_ellipse{Rx=0.4,Ry=0.3,N=16}; c:move_r({1.5,0.4}); c.holder_vx="sin(10*t)"; c.holder_vo="t+1"; c.slip=true; S.body_list:insert(c)\n'
                'S.inf_vy="cos(3*t)/5"; S.sink_list:append({-0.71,1.03,0.3},{2.52,-0.9,-0.3})\n' + CLOUD % 12 + "S.finish=0.2\n", []),
        "elastic": (HEAD + one % 9 + 'b.density=2; b.spring_const={5,5,inf}; b.collision_min={nan,-0.01,nan}; b.collision_max={0.01,0.01,nan}; b.bounce=0.5\n'
                    'c=gen_cylinder{R=0.25,N=7}; c:move_r({1.2,0}); c.root=b; c.spring_const={3,inf,3}; c.density=1.5; S.body_list:insert(c)\n' + "S.finish=0.3\n", []),
        "cloud": (HEAD + CLOUD % 60 + "S.finish=0.1; S.sink_list:append({0.3,0.7,0.3},{0.35,-0.9,-0.2},{1.9,0.2,0.1})\n", []),
        "inviscid": (HEAD + one % 12 + CLOUD % 24 + "S.re=inf; S.finish=0.2\n", []),
        "sensors": (HEAD + one % 8 + CLOUD % 10 + "S.finish=0.1\n", ["-s", "sens", "--profile"]),
    }


FRAME = ["-x", "-1,4", "-y", "-1.2,1.3", "--size", "120x60", "--res-hi", "12", "--res-lo", "10", "--tar"]


def plots():
    res = {}
    for a in (["-B", "-G"], ["-V", "-G", "--eps", "1.5"], ["-P"], ["-S"], ["-Ux"], ["-Uy"]):
        res["".join(a)] = a
    for f in "obf":
        res["S" + f] = ["-S", "--ref-S", f]
    for f in "sobf":
        res["P" + f] = ["-P", "--ref-P", f]
    return res


class Case:
    def __init__(self, name, tool, args, base, outs):
        self.name, self.tool, self.args, self.base, self.outs = name, tool, args, base, outs


def digest(ctx, t, d, out, base):
    """What a run has left: its output and files"""
    h = hashlib.sha1(out)
    files = []
    for p, ds, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            files.append(os.path.relpath(os.path.join(p, f), d))
    files = [f for f in files if f not in base and not f.endswith((".log", ".race"))]
    for f in files:
        if not f.endswith(".h5"):
            h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read())
    h5 = [f for f in files if f.endswith(".h5")]
    if h5:
        rd = t.read(ctx, [os.path.join(d, f) for f in h5])
        for f in h5:
            r = dict(rd[os.path.join(d, f)])
            r.pop("file")
            r["attrs"] = {k: v for k, v in r.get("attrs", {}).items() if k != "time_local"}
            h.update(f.encode() + repr(sorted(r.items(), key=lambda x: x[0])).encode())
    return h.hexdigest()


def run(ctx):
    t = sim.Tools()
    race = sim.Tools("race")
    so = t.omprt()
    cases = []
    plain_env = dict(os.environ, OMP_NUM_THREADS="1")
    src = os.path.join(ctx.scratch, "src")
    for name, (text, args) in problems().items():
        d = os.path.join(ctx.scratch, name)
        os.makedirs(d)
        files = {"run.lua": text + "simulate()" + DUMP, "sens": "0.1 0.6\n-0.3 0.8\n2 0.1\n"}
        for f, c in files.items():
            open(os.path.join(d, f), "w").write(c)
        cases.append(Case(name, "vvflow", args + ["run.lua"], d, set(files)))
        # as a run leaves it, with no simulation going on
        open(os.path.join(d, "save.lua"), "w").write(text.replace("S.finish", "S.finish=1; S.finish") + 'S.dt_save="1/10"; simulate()\n')
        rc, out, err = ctx.call([t.vvflow, "save.lua"], d, env=plain_env)
        if rc != 0:
            raise core.CheckError("%s: %s" % (name, err))
        os.makedirs(src, exist_ok=True)
        snaps = sorted(os.listdir(d + "/results_c"))
        shutil.copy(os.path.join(d, "results_c", snaps[-1]), os.path.join(src, name + ".h5"))
        for f in os.listdir(d):
            if f not in files:
                p = os.path.join(d, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for name in (("cylinder", "two", "cloud") if not ctx.thorough else list(problems())):
        for pn, a in plots().items():
            if name == "cloud" and pn in ("Sb", "Pb"):
                continue
            cases.append(Case("%s/%s" % (name, pn), "vvplot", FRAME + a + [os.path.join(src, name + ".h5"), "out.tar"], src, {n + ".h5" for n in problems()}))
    count = [0]

    def execute(tools, c, env, preload=True):
        with ctx.lock:
            count[0] += 1
            d = os.path.join(ctx.scratch, "r%d" % count[0])
        if c.tool == "vvflow":
            shutil.copytree(c.base, d)
        else:
            os.makedirs(d)
        e = dict(os.environ, OMP_WAIT_POLICY="passive", **env)
        if preload:
            e["LD_PRELOAD"] = so
        log, rl = d + "/x.log", d + "/x.race"
        if "OMPRT_REGION" in env:
            e["OMPRT_LOG"] = log
        if tools is race:
            e["OMPRT_RACE"] = rl
        rc, out, err = ctx.call([getattr(tools, c.tool)] + c.args, d, timeout=300, env=e)
        points = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        races = open(rl).read().split("\n")[:-1] if os.path.exists(rl) else []
        # the names of files are the same in all directories
        res = (rc, digest(ctx, t, d, out, c.outs) if rc == 0 else err.decode(errors="replace")[-300:])
        shutil.rmtree(d)
        return res, points, races

    def label(c, env):
        return "%s %s" % (c.name, " ".join("%s=%s" % (k[6:] if k.startswith("OMPRT") else k, env[k]) for k in sorted(env)))

    only = ctx.replay_only

    def judge(c, env, got, kind, nontrivial=True):
        with ctx.lock:
            ctx.evaluations += 1
            ctx.nontrivial += bool(nontrivial)
        if got != ref[c.name]:
            if got[0] == "timeout":
                what = "does not end"
            elif got[0] != 0:
                what = "status %s: %s" % got
            else:
                what = "other results than with one thread"
            ctx.violation("%s:%s@%s" % (kind, c.name, label(c, env)), what, {"case": [c.name, env, kind]})
            return False
        return True

    ref = {}

    def reference(c):
        r, _, _ = execute(t, c, {"OMP_NUM_THREADS": "1"}, False)
        if r[0] != 0:
            raise core.CheckError("%s: %s" % (c.name, r))
        r2, _, _ = execute(t, c, {"OMP_NUM_THREADS": "1"}, False)
        if r != r2:
            raise core.CheckError("%s: two runs with one thread differ" % c.name)
        ref[c.name] = r
    core.pmap(reference, cases)

    # every size of team
    jobs = []
    for c in cases:
        for n in range(1, 9):
            jobs.append((c, {"OMP_NUM_THREADS": str(n)}, False))
            if n == 1:
                continue
            for pol in ("first", "next", "last"):
                for ch in (("1", "0") if not ctx.thorough else ("1", "2", "3", "7", "0")):
                    if not ctx.thorough and c.tool == "vvplot" and (n not in (2, 3, 8) or pol == "first"):
                        continue
                    jobs.append((c, {"OMPRT_TEAM": str(n), "OMPRT_POLICY": pol, "OMPRT_CHUNK": ch}, True))

    def team(j):
        c, env, pre = j
        if only and [c.name, env, "threads"] != only:
            return
        got, _, _ = execute(t, c, env, pre)
        judge(c, env, got, "threads", env.get("OMP_NUM_THREADS") != "1")
    core.pmap(team, jobs)

    # conflicts
    def conflicts(j):
        c, env = j
        if only and (only[0] != c.name or only[2] not in ("conflict", "race-build")):
            return
        got, _, races = execute(race, c, env)
        judge(c, env, got, "race-build")
        for l in races:
            m = re.match(r"(\d+) (\w) (\S+?)\+(\w+)\(.*?\) (\w) (\S+?)\+(\w+)\(.*\)$", l)
            what = "%s in %s and %s in %s" % ({"W": "write", "R": "read"}[m[2]], name_of(race, m[3], m[4]), {"W": "write", "R": "read"}[m[5]], name_of(race, m[6], m[7])) if m else l
            ctx.violation("conflict:%s@%s" % (what, c.name), "unsynchronised access to the same data: %s (region %s)" % (what, l.split()[0]), {"case": [c.name, env, "conflict"]})
    # the -O1 build for the watching may round otherwise: it has its own reference
    plain_ref = dict(ref)

    def reference_race(c):
        ref[c.name] = execute(race, c, {"OMPRT_TEAM": "1"})[0]
        if ref[c.name][0] != 0:
            raise core.CheckError("%s: %s" % (c.name, ref[c.name]))
    core.pmap(reference_race, cases)
    core.pmap(conflicts, [(c, {"OMPRT_TEAM": str(n), "OMPRT_CHUNK": "1", "OMPRT_POLICY": p}) for c in cases
                          for n in ((64, 97) if not ctx.thorough else (16, 64, 97, 129)) for p in (("next",) if not ctx.thorough else ("next", "first"))])
    ref.update(plain_ref)

    # schedules of every region
    stats = {"schedules": 0, "points": 0}

    def regions(c):
        got, points, _ = execute(t, c, {"OMPRT_TEAM": "2", "OMPRT_REGION": "0", "OMPRT_CHUNK": "1"})
        seen, size = {}, {}
        for l in points:
            if l[0].isdigit():
                r, k, runs, fn = l.split()
                size[int(r)] = size.get(int(r), 0) + 1
                seen[int(r)] = fn
        if ctx.thorough:
            return sorted(seen)
        # of the regions made by the same lines, the one with most to choose and the last one
        pick = set()
        for fn in set(seen.values()):
            rs = [r for r in seen if seen[r] == fn]
            pick |= {max(rs, key=lambda r: (size[r], -r)), max(rs)}
        return sorted(pick)
    todo = []
    for c, rs in zip(cases, core.pmap(regions, cases)):
        for r in rs:
            for n, ch in (((2, "16"), (3, "40")) if not ctx.thorough else ((2, "4"), (2, "16"), (2, "40"), (3, "16"), (3, "40"))):
                todo.append((c, {"OMPRT_TEAM": str(n), "OMPRT_REGION": str(r), "OMPRT_CHUNK": ch}))
    bound = 3 if ctx.thorough else 2
    cap = 400 if ctx.thorough else 40

    def explore(j):
        c, env = j
        if only and (only[0] != c.name or only[2] != "schedule"):
            return
        stack = [""]
        done = 0
        while stack:
            prefix = stack.pop()
            e = dict(env, OMPRT_CHOICES=prefix)
            if only and e != only[1]:
                if not only[1]["OMPRT_CHOICES"].startswith(prefix) or env["OMPRT_REGION"] != only[1]["OMPRT_REGION"]:
                    continue
            if done >= cap:
                with ctx.lock:
                    stats["capped"] = stats.get("capped", 0) + 1
                break
            got, points, _ = execute(t, c, e)
            done += 1
            opts = [tuple(map(int, l.split()[1:3])) for l in points if l[0].isdigit()]
            with ctx.lock:
                stats["schedules"] += 1
                stats["points"] += len(opts)
            if not judge(c, e, got, "schedule", "1" in prefix or "2" in prefix or len(opts) > 2):
                return
            used = sum(1 for i, x in enumerate(prefix) if x != "0" and i < len(opts) and opts[i][1])
            full = prefix + "0" * (len(opts) - len(prefix))
            new = []
            for i in range(len(prefix), len(opts)):
                k, runs = opts[i]
                if runs and used >= bound:
                    continue
                for x in range(1, k):
                    new.append(full[:i] + str(x))
            # early points first: they lead to the most different schedules
            stack.extend(reversed(new)) if not ctx.thorough else stack.extend(new)
    core.pmap(explore, todo)
    ctx.states = stats["schedules"]
    ctx.transitions = stats["points"]
    ctx.extra["schedule exploration"] = dict(stats, regions=len(todo), preemption_bound=bound)
    ctx.rule = RULE


def name_of(tools, module, offset):
    for m in (os.path.join(tools.b, "libvvhd", module), getattr(tools, module, "")):
        if os.path.exists(m):
            out = subprocess.run(["addr2line", "-f", "-C", "-e", m, "0x%x" % (int(offset, 16) - 1)], stdout=subprocess.PIPE).stdout.decode().split("\n")
            return re.sub(r" \[clone.*|\(.*", "", out[0])
    return module
