import itertools
import os
import shutil

from mc import core, sim

RULE = ("Every sequence of up to three tokens (thorough: four, of a part of the table) from tables of options in all spellings, operands, unknown and incomplete options is "
        "given to vvflow, vvxtract and vvplot as a command line. A model of the documented options (long names may be abbreviated, values attached or separate, order free, "
        "the last of a kind wins, -- ends them, -h and -v act where they stand) tells the meaning. Of vvflow the status, the arguments seen by the script, messages, progress, "
        "profiles, sensors and every file left are compared; of vvxtract and vvplot the output with that of the plainest command line with this meaning; of those refused the "
        "status, the message and that nothing is written. Non-trivial: command lines that run something.")

class Bad(Exception):
    pass


class Done(Exception):
    pass


def parse(tokens, longs, shorts, seen=lambda n, v: None):
    """The options [(name, value)] in order and the operands; longs: {name: takes a value}"""
    opts, rest = [], []
    it = iter(tokens)
    for a in it:
        if a == "--":
            rest += list(it)
        elif a.startswith("--"):
            n, eq, v = a[2:].partition("=")
            m = [n] if n in longs else [l for l in longs if l.startswith(n)]
            if len(m) != 1:
                raise Bad()
            if not longs[m[0]]:
                if eq:
                    raise Bad()
                v = None
            elif not eq:
                v = next(it, None)
                if v is None:
                    raise Bad()
            option(opts, m[0], v, seen)
        elif a.startswith("-") and a != "-":
            s = a[1:]
            while s:
                n, s = s[0], s[1:]
                if n not in shorts:
                    raise Bad()
                v = None
                if shorts[n]:
                    v, s = (s, "") if s else (next(it, None), "")
                    if v is None:
                        raise Bad()
                option(opts, n, v, seen)
        else:
            rest.append(a)
    return opts, rest


def option(opts, n, v, seen):
    n = {"v": "version", "h": "help", "i": "info", "l": "list", "s": "sensors"}.get(n, n)
    if n in ("version", "help"):
        raise Done(n)
    seen(n, v)
    opts.append((n, v))


# ---------------------------------------------------------------- vvflow
SCRIPT = '''io.write("run")
for i = -2, 15 do if arg[i] then io.write("|", i, "=", arg[i]) end end
io.write("|", #arg, "\\n")
S.dt = "1/4"; S.dt_save = "1/4"; S.finish = 0.25; S.inf_vx = "1"; S.re = inf; S.caption = "c"
S.body_list:insert(gen_cylinder{R=0.5, N=4})
'''
FILES = {
    "../ok.lua": SCRIPT + "simulate()\n",
    "../err.lua": SCRIPT + "error('boom')\n",
    "../sim.lua": SCRIPT + "S.re = 0\nsimulate()\n",
    "../syn.lua": "S.re = = 4\n",
    "../empty": "",
}
FLOW_LONG = {"version": False, "help": False, "sensors": True, "no-progress": False, "progress": False, "no-profile": False, "profile": False}
FLOW_SHORT = {"v": False, "h": False, "s": True}
INPUTS = list(FILES) + ["../p.h5", "../missing", "..", "../text"]
FLOW = ["--profile", "--no-profile", "--progress", "--no-progress", "--prof", "--no-prog", "--pro", "--no-pro", "--s", "--sensors=../s1", "--sensors", "-s", "-s../s2", "../s1",
        "--bogus", "-x", "--profile=1", "--", "-", "-h", "--help", "-v", "--vers", "-vx", "-hs", "3.5", "", "../ok.lua"]
FLOW3 = [x for x in FLOW if x not in ("--s", "--vers", "-v", "--no-prog", "--pro", "-x", "-hs", "-", "3.5", "--help", "--prof")]
FLOW4 = ["--profile", "--no-profile", "--progress", "--sensors", "-s../s2", "../s1", "--", "-h", "--bogus", "../ok.lua", "../err.lua", "a b"]


def flow_lines(ctx):
    # every sequence with every kind of input in some place
    for n in (0, 1, 2, 3):
        for s in itertools.product(FLOW if n < 3 or ctx.thorough else FLOW3, repeat=n):
            yield s
    for i in INPUTS:
        for n in (0, 1, 2):
            for s in itertools.product(FLOW[:-1] if n < 2 or ctx.thorough or i in ("../err.lua", "../p.h5") else FLOW3[:-1], repeat=n):
                for p in range(n + 1):
                    yield s[:p] + (i,) + s[p:]
    # scripts with many arguments, options between them, behind `--` or not
    words = ["a", "-1", "", "a b", "../s1", "p=2", "\u043f", "x" * 60, "--", "9", "10", "last"]
    for i in ("../ok.lua", "../err.lua", "../p.h5", "../missing"):
        for n in range(1, len(words) + 1):
            plain = tuple(w for w in words[:n] if w[:1] != "-")
            yield (i,) + plain
            yield (i, "--") + tuple(words[:n])
            yield ("--", i) + tuple(words[:n])
            for o in [("--profile",), ("-s../s1",), ("--bogus",)] + [c for m in (2, 3) for c in itertools.combinations(("--profile", "--progress", "-s../s2", "--no-profile", "-s../s1"), m)]:
                for p in range(len(plain) + 1) if len(o) == 1 or n < 5 else (n // 2,):
                    yield (i,) + plain[:p] + o + plain[p:]
    if ctx.thorough:
        for s in itertools.product(FLOW4, repeat=4):
            yield s


def flow(box, batch):
    ctx, t = box.ctx, box.t
    reads = []
    for s in batch:
        key = "vvflow:" + " ".join(x or "''" for x in s)
        if ctx.replay_only not in (None, key):
            continue
        d = os.path.join(box.root, "r%d" % next(box.n))
        os.makedirs(d)
        try:
            rc, out, err = ctx.call([t.vvflow] + list(s), d, timeout=60, env={"OMP_NUM_THREADS": "1"})
            out, err = out.decode(errors="replace"), err.decode(errors="replace")
            left = sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)
            box.count()
            exp = None
            try:
                opts, rest = parse(s, FLOW_LONG, FLOW_SHORT)
                if not rest:
                    raise Bad()
            except Bad:
                exp = "refused"
            except Done as e:
                exp = str(e)
            if exp:
                ctx.outcome(exp)
                if exp == "refused":
                    ok = isinstance(rc, int) and 0 < rc < 128 and err.strip() and not out
                else:
                    ok = rc == 0 and out.strip() and not err.strip() and (("Usage" in out and "--profile" in out) if exp == "help" else ("revision" in out and "vvflow" in out.split("\n")[0]))
                ctx.check(ok and not left, exp + "@" + key, lambda: "status %s, stdout %r, stderr %r, files %s" % (rc, out[:150], err[:150], left))
                continue
            prof = ([n == "profile" for n, v in opts if n.endswith("profile")] or [False])[-1]
            prog = ([n == "progress" for n, v in opts if n.endswith("progress")] or [False])[-1]
            sens = ([v for n, v in opts if n == "sensors"] or [None])[-1]
            inp = rest[0]
            kind = inp[3:] if inp in FILES or inp == "../p.h5" else "unusable"
            box.count(nontrivial=True, n=0)
            said = "run" + "".join("|%d=%s" % (i, a) for i, a in enumerate(rest)) + "|%d\n" % (len(rest) - 1)
            ctx.outcome("%s%s%s%s" % (kind, " profile" if prof else "", " progress" if prog else "", " sensors" if sens else ""))
            runs = kind in ("ok.lua", "p.h5")
            good = runs or kind == "empty"
            bad = []
            if not (rc == 0 if good else isinstance(rc, int) and 0 < rc < 128):
                bad.append("status %s" % rc)
            if out != (said if kind in ("ok.lua", "err.lua", "sim.lua") else ""):
                bad.append("stdout %r instead of %r" % (out[:200], said))
            if kind == "err.lua" and "boom" not in err or kind == "sim.lua" and "re<=0" not in err or not good and not err.strip():
                bad.append("message %r" % err[:200])
            if runs:
                n = len([x for x in err.replace("\n", "\r").split("\r") if x.startswith("t=")])
                if n != (2 if prog else 0):
                    bad.append("progress shown %d times" % n)
                rest_err = "".join(x for x in err.replace("\n", "\r").split("\r") if not x.startswith("t="))
                if bool(rest_err.strip()) != (sens not in (None, "../s1", "../s2", "..", "../ok.lua")) and os.path.isfile(os.path.join(d, sens or "../s1")):
                    bad.append("messages %r" % rest_err[:200])
            want = ["results_c/%06d.h5" % i for i in (0, 1)] + ["stepdata_c.h5"] if runs else []
            lines = {"../s1": 2, "../s2": 4}.get(sens)
            if lines and runs:
                want.append("velocity_c")
                if "velocity_c" in left:
                    text = [l.split() for l in open(d + "/velocity_c")]
                    if [len(l) for l in text] != [lines + 1] * 2:
                        bad.append("sensor record %s" % text)
            if left != sorted(want):
                bad.append("files %s instead of %s" % (left, sorted(want)))
            ctx.check(not bad, kind + "@" + key, lambda: "; ".join(bad))
            if runs and not bad:
                to = d + ".h5"
                os.rename(d + "/stepdata_c.h5", to)
                reads.append((key, prof, to))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    r = t.read(ctx, [p for _, _, p in reads])
    for key, prof, p in reads:
        sets = r[p].get("sets", {})
        has = [sum(n.endswith("/" + w) for n in sets) for w in ("pressure", "friction")]
        rows = sets.get("time", {"dims": [0]})["dims"][0]
        ctx.check(rows == 2 and has == [prof, prof], "profiles@" + key, lambda: "%d steps, profiles %s; %s" % (rows, has, sorted(sets)))
        os.remove(p)


# ---------------------------------------------------------------- vvxtract
XT_LONG = {"version": False, "help": False, "info": False, "list": False}
XT_SHORT = {"v": False, "h": False, "i": False, "l": False}
XT = ["-i", "-l", "--info", "--list", "--in", "--l", "-il", "-li", "-ix", "--bogus", "--info=1", "--", "-h", "--v", "-x", "../f.h5", "../g.h5", "../missing", "time", "vort", "body00/force_holder", "none", ""]

XT3 = [x for x in XT if x not in ("-ix", "--in", "--info", "--v", "-x", "--bogus", "-li", "")]


def xtract_lines(ctx):
    for n in (0, 1, 2, 3):
        yield from itertools.product(XT if n < 3 or ctx.thorough else XT3, repeat=n)
    for s in itertools.product(XT, repeat=2):
        for p in range(3):
            for f in ("../f.h5", "../g.h5"):
                for q in ("time", "vort"):
                    x = s[:p] + (f,) + s[p:]
                    for r in range(4):
                        yield x[:r] + (q,) + x[r:]
    for n in range(3, 14):
        sets = [("time", "vort", "body00/force_holder", "none")[i % 4] for i in range(n)]
        for q in (sets, [x for x in sets if x != "none"], ["time"] * n):
            for p in range(len(q) + 1):
                for o in ((), ("-i",), ("-l",), ("--",)):
                    yield tuple(q[:p]) + o + ("../f.h5",) + tuple(q[p:])
                    yield ("../g.h5",) + tuple(q[:p]) + o + tuple(q[p:])
    if ctx.thorough:
        yield from itertools.product(["-i", "-l", "--list", "--", "../f.h5", "../g.h5", "time", "vort", "body00/force_holder", "none"], repeat=5)


def xtract(box, s):
    ctx = box.ctx
    key = "vvxtract:" + " ".join(x or "''" for x in s)
    if ctx.replay_only not in (None, key):
        return
    d = box.empty
    rc, out, err = ctx.call([box.t.vvxtract] + list(s), d, timeout=60)
    box.count()
    left = os.listdir(d)
    try:
        opts, rest = parse(s, XT_LONG, XT_SHORT)
        if not rest:
            raise Bad()
    except Bad:
        ctx.outcome("refused")
        ctx.check(isinstance(rc, int) and 0 < rc < 128 and err.strip() and not out and not left, "refused@" + key, lambda: "status %s, %r, %r" % (rc, out[:100], err[:100]))
        return
    except Done as e:
        ctx.outcome(str(e))
        ok = rc == 0 and not err.strip() and not left and ((b"Usage" in out and b"--list" in out) if str(e) == "help" else (b"revision" in out and b"vvxtract" in out.split(b"\n")[0]))
        ctx.check(ok, str(e) + "@" + key, lambda: "status %s, %r, %r" % (rc, out[:100], err[:100]))
        return
    names = [n for n, v in opts]
    mode = "list" if "list" in names else "info" if "info" in names or len(rest) == 1 else "data"
    canon = ["--list", "--", rest[0]] if mode == "list" else ["--info", "--", rest[0]] if mode == "info" else ["--"] + rest
    xrc, xout = box.canonical(box.t.vvxtract, tuple(canon), d)
    box.count(nontrivial=xrc == 0, n=0)
    ctx.outcome(mode + (" refused" if xrc else ""))
    ctx.check(rc == xrc and out == xout and bool(err.strip()) == bool(xrc), mode + "@" + key, lambda: "status %s and %d bytes, %s and %d with %s; %r" % (rc, len(out), xrc, len(xout), " ".join(canon), err[:100]))
    usable = rest[0] in ("../f.h5", "../g.h5") and (mode != "data" or all(x in box.sets[rest[0]] for x in rest[1:]))
    ctx.check((xrc == 0) == usable and isinstance(xrc, int) and 0 <= xrc < 128, "status@" + key, lambda: "status %s" % xrc)


# ---------------------------------------------------------------- vvplot
VP_FLAGS = ["png", "tar", "no-gray", "gray", "no-colorbox", "colorbox", "no-timelabel", "timelabel", "no-holder", "holder", "no-spring", "spring",
            "ttree-bottom-nodes", "ttree-near-nodes", "ttree-find-node", "B", "version", "help"]
VP_VALUES = ["size", "res-hi", "res-lo", "eps", "load-field", "ref-xy", "ref-S", "ref-P", "V", "S", "G", "P", "Ux", "Uy"]
VP_LONG = dict([(n, False) for n in VP_FLAGS] + [(n, True) for n in VP_VALUES])
VP_SHORT = {"v": False, "h": False, "B": False, "V": False, "S": False, "G": False, "P": False, "U": True, "x": True, "y": True, "s": True}
VP = ["-B", "--B", "-V", "--V=6", "--V 2", "-BV", "-G", "--G=3", "-P", "--P 0,1", "-Ux", "-U y", "--Uy=0,1", "-S", "--S=-1,1,0.5", "--gray", "--gr", "--no-gray", "--no-time", "--timelabel",
      "--holder", "--no-h", "--no-holder", "--size=32x24", "-s 48x32", "--si 64x0", "-x -1,2", "-x-1,2", "-y0,2", "--ref-xy=b", "--ref-x bx", "--ref-S f", "--ref-P=b", "--eps 1",
      "--res-hi 4", "--res-l 5", "--res 5", "--ref f", "--tar", "--t", "--spring", "-h", "--vers", "-n", "-Q", "--G", "-Uz", "--V=x", "--bogus", "--gray=1", "-U", "--P=0", "--eps=0", "--"]


def plot_lines(ctx):
    base = ("--tar", "-x", "-1.5,1.5", "-y", "-1,1", "--size", "40x0", "--res-hi", "6", "--res-lo", "6")
    toks = [tuple(x.split()) for x in VP]
    for n in (0, 1, 2):
        for s in itertools.product(toks, repeat=n):
            s = sum(s, ())
            yield base + s + ("../f.h5", "OUT")
            if n == 1 or ctx.thorough:
                yield base + ("../f.h5",) + s + ("OUT",)
                yield ("../f.h5", "OUT") + base + s
                yield base + s + ("--", "../f.h5", "OUT")
                yield s + base + ("../f.h5",)
                yield s + base + ("../f.h5", "OUT", "b")
    if ctx.thorough:
        part = [toks[VP.index(x)] for x in ("-B", "--V=6", "-V", "-G", "--G=3", "-P", "-Ux", "--Uy=0,1", "-S", "--S=-1,1,0.5", "--gray", "--no-gray", "-x -1,2", "--size=32x24", "--ref-xy=b", "--")]
        for s in itertools.product(part, repeat=3):
            yield base + sum(s, ()) + ("../f.h5", "OUT")


def values(s, n, conv=float, ok=lambda *a: True):
    """n numbers, with commas between"""
    try:
        v = tuple(conv(x) for x in s.split(","))
    except ValueError:
        raise Bad()
    if len(v) != n or not ok(*v):
        raise Bad()
    return s


def plot_meaning(s):
    """The plainest command line of the same meaning, or None where the documentation does not tell"""
    def usable(n, v):
        if n == "U" and v not in ("x", "y"):
            raise Bad()
        if n == "V" and v is not None: values(v, 1, int, lambda a: a >= 0)
        if n == "G" and v is not None: values(v, 1, float, lambda a: a >= 0)
        if n == "P" and v is not None or n in ("Ux", "Uy"): values(v, 2, float, lambda a, b: a <= b)
        if n == "S" and v is not None: values(v, 3, float, lambda a, b, c: a <= b and c > 0)
        if n == "eps": values(v, 1, float, lambda a: a > 0)
        if n in ("res-hi", "res-lo"): values(v, 1, int, lambda a: a > 0)

    opts, rest = parse(s, VP_LONG, VP_SHORT, usable)
    m = {}
    for n, v in opts:
        if n in ("V", "S"):
            m[n] = v or m.get(n)
        elif n in ("G", "P", "U", "Ux", "Uy"):
            f = "U" if n[0] == "U" else n
            m["field"] = "-U" + (n[1:] or v) if f == "U" else "-" + f
            m["range " + f] = (v if n != "U" else None) or m.get("range " + f)
        elif n in ("sensors", "size"):
            m["size"] = v
        elif n.startswith("no-"):
            m[n[3:]] = False
        elif v is None:
            m[n] = True
        else:
            m[n] = v
    if len(rest) != 2:
        raise Bad()
    f = m.pop("field", None)
    ranges = {k[6:]: m.pop(k) for k in [k for k in m if k.startswith("range ")]}
    out = []
    if f:
        v = ranges.get(f[1])
        out += [f] if v is None else ["--" + f[1:], v]
    for k in sorted(m):
        v = m[k]
        if v is None or v is True and k in "BVS":
            out.append("-" + k)
        elif v is not False and v is not True:
            out += ["-" + k if k in "xy" else "--" + k, v]
        elif v:
            out.append("--" + k)
        elif k == "timelabel":
            out.append("--no-timelabel")
    return tuple(out), rest


def plot(box, s):
    ctx = box.ctx
    key = "vvplot:" + " ".join(s)
    if ctx.replay_only not in (None, key):
        return
    d = os.path.join(box.root, "r%d" % next(box.n))
    os.makedirs(d)
    try:
        rc, out, err = ctx.call([box.t.vvplot] + list(s), d, timeout=60, env={"OMP_NUM_THREADS": "1"})
        err = err.decode(errors="replace")
        left = sorted(os.listdir(d))
        box.count()
        try:
            canon, rest = plot_meaning(s)
        except Bad:
            ctx.outcome("refused")
            ctx.check(isinstance(rc, int) and 0 < rc < 128 and err.strip() and not left, "refused@" + key, lambda: "status %s, stderr %r, files %s" % (rc, err[:150], left))
            return
        except Done as e:
            ctx.outcome(str(e))
            text = out.decode(errors="replace") + err
            ctx.check(rc == 0 and not left and ("Usage" in text if str(e) == "help" else "vvplot" in text), str(e) + "@" + key, lambda: "status %s %r" % (rc, text[:150]))
            return
        box.count(nontrivial=True, n=0)
        with box.ctx.lock:
            lock = box.locks.setdefault(canon, __import__("threading").Lock())
        with lock:
            if canon not in box.plain:
                p = os.path.join(box.root, "plain%d" % next(box.n))
                os.makedirs(p)
                xrc, _, xerr = ctx.call([box.t.vvplot] + list(canon) + ["--", "../f.h5", "OUT"], p, timeout=60, env={"OMP_NUM_THREADS": "1"})
                f = p + "/OUT"
                box.plain[canon] = (xrc, package(open(f, "rb").read()) if os.path.exists(f) else None)
                shutil.rmtree(p, ignore_errors=True)
        xrc, items = box.plain[canon]
        ctx.outcome("plotted" if xrc == 0 else "unusable together")
        f = d + "/OUT"
        got = package(open(f, "rb").read()) if os.path.exists(f) else None
        ctx.check(rc == xrc and got == items and left == (["OUT"] if items else []), "plot@" + key,
                  lambda: "status %s and %s; %s and %s with %s; %s" % (rc, left, xrc, items is not None, " ".join(canon),
                                                                      [n for n in set(got or ()) | set(items or ()) if (got or {}).get(n) != (items or {}).get(n)]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def package(b):
    """{name: data} of a package; the command line it remembers is left out"""
    items, p = {}, 0
    while p + 512 <= len(b) and b[p:p + 1] != b"\0":
        n = b[p:p + 100].split(b"\0")[0].decode("latin-1")
        size = int(b[p + 124:p + 135].split(b"\0")[0] or b"0", 8)
        items[n] = b[p + 512:p + 512 + size]
        if n.endswith(".gp"):
            items[n] = b"\n".join(l for l in items[n].split(b"\n") if not l.startswith(b"#"))
        p += 512 + (size + 511) // 512 * 512
    return items


# ----------------------------------------------------------------
class Box:
    def __init__(self, ctx):
        self.ctx, self.t, self.n = ctx, sim.Tools(), itertools.count()
        self.root = ctx.scratch
        self.empty = ctx.scratch + "/empty_dir"
        os.makedirs(self.empty)
        self.known, self.plain, self.locks, self.sets = {}, {}, {}, {}
        for n, text in FILES.items():
            with open(os.path.join(ctx.scratch, n[3:]), "w") as f:
                f.write(text)
        for n, text in (("s1", "2 2\n"), ("s2", "1 3\n-2 2"), ("text", "no problem at all\n")):
            with open(os.path.join(ctx.scratch, n), "w") as f:
                f.write(text)
        rc, err = self.t.flow(ctx, ctx.scratch + "/make", SCRIPT + "S:save('../p.h5'); S.vort_list:append({2,1,0.5},{-1,-1,-0.25}); simulate()")
        if rc:
            raise core.CheckError("can't make the problem: %s" % err)
        os.rename(ctx.scratch + "/make/stepdata_c.h5", ctx.scratch + "/g.h5")
        os.rename(ctx.scratch + "/make/results_c/000001.h5", ctx.scratch + "/f.h5")
        for n in ("f.h5", "g.h5"):
            r = self.t.read(ctx, [ctx.scratch + "/" + n])[ctx.scratch + "/" + n]
            self.sets["../" + n] = set(r["sets"])

    def count(self, nontrivial=False, n=1):
        with self.ctx.lock:
            self.ctx.evaluations += n
            self.ctx.nontrivial += nontrivial

    def canonical(self, exe, args, cwd):
        if args not in self.known:
            rc, out, err = self.ctx.call([exe] + list(args), cwd, timeout=60)
            self.known[args] = rc, out
        return self.known[args]


def run(ctx):
    box = Box(ctx)
    lines = sorted(set(flow_lines(ctx)))
    core.pmap(lambda b: flow(box, b), [lines[i:i + 100] for i in range(0, len(lines), 100)])
    core.pmap(lambda s: xtract(box, s), sorted(set(xtract_lines(ctx))))
    core.pmap(lambda s: plot(box, s), sorted(set(plot_lines(ctx))))
    ctx.rule = RULE
