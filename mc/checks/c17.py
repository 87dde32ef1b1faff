import io
import itertools
import math
import os
import re
import shutil
import struct
import subprocess
import tarfile

from mc import core, sim

RULE = ("Regions: all combinations of -x, -y (plain, swapped, to be computed, one end to be computed, tiny, far, malformed, absent), --size (full, one or both "
        "to be computed, malformed, absent) and --ref-xy, against the documented rules in doubles. Contents: all options singly and in pairs (thorough: triples) x flows "
        "x two regions; every item of the package equals what the library gives for that region and those parameters, vortices, bodies, holders and springs those "
        "of the file, references and items correspond, ranges hold the field, palettes are monotonic. The same script and data reach gnuplot directly and through a package "
        "(with a stand-in that prints them); gnuplot itself draws the same picture of the given size directly, from the package and from the unpacked script. "
        "Packing: all pairs of body labels of an alphabet (equal, reserved, quotes, paths, long, of other alphabets, none), up to 100 bodies, items around multiples of "
        "a block and above the size of a stack. Fields are loaded back; malformed options and files are refused. Non-trivial: a plot was made and judged.")

FAKE = '''#!/bin/sh
# stands in for gnuplot: prints the script, then the data in the order of reference
sed -e "s,/dev/fd/[0-9]*,FD,g" "$1"
for f in $(grep -v "^#" "$1" | grep -o "/dev/fd/[0-9]*"); do printf '\\n==\\n'; cat "$f"; done
'''


class Box:
    """What the runs of one check share"""
    def __init__(self, ctx):
        self.ctx, self.t = ctx, sim.Tools()
        self.ref = core.build_harness("c17", "plain", extra=["-w"])
        self.n = itertools.count()
        self.bin = os.path.join(ctx.scratch, "bin")
        os.makedirs(self.bin)
        with open(self.bin + "/gnuplot", "w") as f:
            f.write(FAKE)
        os.chmod(self.bin + "/gnuplot", 0o755)
        self.flows = {}

    def path(self, ext=""):
        return os.path.join(self.ctx.scratch, "p%d%s" % (next(self.n), ext))

    def flow(self, kind, nv, labels=()):
        """(file, what it holds)"""
        k = (kind, nv, tuple(labels))
        if k not in self.flows:
            p = self.path(".h5")
            rc, out, err = self.ctx.call([self.ref, "make", p, kind, str(nv)] + [l.encode() for l in labels], "/", timeout=120)
            if rc != 0:
                raise core.CheckError("c17 make: %s" % err[-300:])
            self.flows[k] = (p, self.t.read(self.ctx, [p])[p])
        return self.flows[k]

    def plot(self, args, fake=False, cwd="/", timeout=120):
        env = {"OMP_NUM_THREADS": "1"}
        if fake:
            env["PATH"] = self.bin + ":" + os.environ["PATH"]
        rc, out, err = self.ctx.call([self.t.vvplot] + list(args), cwd, timeout=timeout, env=env)
        return rc, (out + err).decode(errors="replace")

    def count(self, nontrivial=True):
        with self.ctx.lock:
            self.ctx.evaluations += 1
            if nontrivial:
                self.ctx.nontrivial += 1

    def library(self, path, requests):
        inp = "".join(" ".join(str(x) if isinstance(x, str) else repr(x) for x in r) + "\n" for r in requests)
        rc, out, err = self.ctx.call([self.ref, "ref", path], "/", timeout=300, input=inp.encode())
        if rc != 0:
            raise core.CheckError("c17 ref: %s" % err[-300:])
        res, i = {}, 0
        for r in requests:
            j = out.index(b"\n", i)
            n = int(out[i:j])
            i = j + 1
            if n < 0:
                res[r] = None
            else:
                res[r] = out[i:i + n]
                i += n
        return res


def unpack(path):
    """[(name, data)] of a package; the names as they are stored"""
    with tarfile.open(path) as t:
        return [(m.name, t.extractfile(m).read() if m.isfile() else None) for m in t.getmembers()]


NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)"


def elements(l):
    res, cur, quote, depth = [], "", None, 0
    for c in l:
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"":
            quote = c
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == "," and depth == 0:
            res.append(cur)
            cur = ""
            continue
        cur += c
    return res + ([cur] if cur.strip() else [])


class Script:
    def __init__(self, text):
        text = re.sub(r"\\\n", " ", text)
        self.lines = [l.strip() for l in text.splitlines() if l.strip() and not l.lstrip().startswith("#")]
        self.text = "\n".join(self.lines)
        self.size = self.pair(r"set term\w*\s+pngcairo\b.*?\bsize\s+(-?\d+)\s*,\s*(-?\d+)", int)
        self.x = self.pair(r"set xrange\s*\[\s*(%s)\s*:\s*(%s)\s*\]" % (NUM, NUM))
        self.y = self.pair(r"set yrange\s*\[\s*(%s)\s*:\s*(%s)\s*\]" % (NUM, NUM))
        self.cb = self.pair(r"set cbrange\s*\[\s*(%s)\s*:\s*(%s)\s*\]" % (NUM, NUM))
        plots = [l for l in self.lines if l.startswith("plot ") or l == "plot"]
        self.refs = []
        last = None
        for l in plots:
            # elements of the plot are separated by commas outside of quotes and brackets; each starts with its data
            for e in elements(l[4:]):
                m = re.match(r"\s*'((?:[^']|'')*)'(.*)$", e, re.S)
                if m:
                    last = m.group(1).replace("''", "'") or last
                    self.refs.append((last, m.group(2)))
                elif self.refs and not e.strip().lower().startswith("nan"):
                    self.refs[-1] = (last, self.refs[-1][1] + "," + e)
        m = re.search(r"set palette defined\s*\((.*?)\)\s*$", self.text, re.M)
        self.palette = None
        if m:
            self.palette = [float(x.split()[0]) for x in m.group(1).split(",")]
            self.colors = [x.split()[1].strip('"') for x in m.group(1).split(",")]

    def pair(self, rx, conv=float):
        m = re.findall(rx, self.text)
        return tuple(conv(x) for x in m[-1]) if m else None

    def has(self, rx):
        return re.search(rx, self.text, re.M) is not None


# ---------------------------------------------------------------- regions
def close(a, b, scale):
    return abs(a - b) <= 1e-12 * scale


def parse_pair(s):
    m = re.fullmatch(r"\s*([^,\s]+)\s*,\s*([^,\s]+)\s*", s)
    if not m:
        return None
    try:
        a, b = float(m.group(1)), float(m.group(2))
    except ValueError:
        return None
    return None if math.isinf(a) or math.isinf(b) else (a, b)


def parse_size(s):
    m = re.fullmatch(r"(\d+)x(\d+)", s)
    return (int(m.group(1)), int(m.group(2))) if m else None


def region(x, y, size):
    """None if refused, else (xmin,xmax,ymin,ymax,W,H) where W or H is None when any even number next to the exact one does"""
    x = parse_pair(x) if x is not None else (0.0, 0.0)
    y = parse_pair(y) if y is not None else (0.0, 0.0)
    size = parse_size(size) if size is not None else (1280, 720)
    if x is None or y is None or size is None:
        return None
    (x0, x1), (y0, y1), (W, H) = sorted(x) if x[0] > x[1] else x, sorted(y) if y[0] > y[1] else y, size
    missing = (not W) + (not H) + (x0 == x1) + (y0 == y1) + sum(math.isnan(v) for v in (x0, x1, y0, y1))
    if missing > 1:
        return None
    if missing == 0:
        H = 0
    if not W or not H:
        return x0, x1, y0, y1, W or None, H or None
    if x0 == x1:
        d = (y1 - y0) * W / H / 2
        x0, x1 = x0 - d, x1 + d
    elif math.isnan(x0):
        x0 = x1 - (y1 - y0) * W / H
    elif math.isnan(x1):
        x1 = x0 + (y1 - y0) * W / H
    elif y0 == y1:
        d = (x1 - x0) * H / W / 2
        y0, y1 = y0 - d, y1 + d
    elif math.isnan(y0):
        y0 = y1 - (x1 - x0) * H / W
    elif math.isnan(y1):
        y1 = y0 + (x1 - x0) * H / W
    return x0, x1, y0, y1, W, H


def origin(f, ref):
    """What a reference frame moves the region by; None: refused"""
    if ref in ("o", None):
        return 0.0, 0.0
    if ref == "f":
        return tuple(f["attrs"]["inf_marker"][:2])
    if ref not in ("b", "bxy", "bx", "by") or "body00" not in f["sets"]:
        return None
    A = f["sets"]["body00"]["attrs"]
    p = [A["holder_position"][i] + A["delta_position"][i] for i in (0, 1)]
    return (p[0] if ref != "by" else 0.0), (p[1] if ref != "bx" else 0.0)


def grid(data):
    """(xs, ys, values) of a stored map"""
    n = int(struct.unpack("f", data[:4])[0])
    v = struct.unpack("%df" % (len(data) // 4), data)
    rows = [v[i:i + n + 1] for i in range(0, len(v), n + 1)]
    return list(rows[0][1:]), [r[0] for r in rows[1:]], [r[1:] for r in rows[1:]]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def regions(box):
    ctx = box.ctx
    X = [None, "-2,2", "2,-2", "1,1", "NaN,2", "-2,NaN", "NaN,NaN", "0.1,0.4", " -0.5 , 1.5 ", "1000.0625,1000.3125", "-1e-3,1e-3", "1", "a,b", "inf,1", "1,2,3", "1,2x"]
    Y = [None, "-1.5,1", "1,-1.25", "0.5,0.5", "NaN,1", "-1,NaN", "0.1,0.2", "-0.3333333333,7.1", "1;2"]
    Z = [None, "60x40", "60x0", "0x40", "0x0", "101x33", "-5x3", "60", "4x3x2"]
    R = [None, "b", "bx", "by", "f", "q"]
    if ctx.thorough:
        X += ["-3,0.7", "1e5,1e5", "-1e6,1e6", "0,NaN"]
        Y += ["-100,100", "1,-1", "NaN,NaN", "1e-5,2e-5"]
        Z += ["640x480", "1x1", "0x1", "7x0", "1e3x5"]
        R += ["o", "bxy", "x"]
    jobs = [(fl, x, y, z, r) for fl in (("moving", 6, ("", "")), ("up", 6, ())) for x in X for y in Y for z in Z for r in R
            if fl[2] or (r in (None, "b", "bx", "f") and x in X[:5] and y in Y[:4])]

    def one(j):
        fl, x, y, z, r = j
        k = "region:%d:%s:%s:%s:%s" % (len(fl[2]), x, y, z, r)
        if ctx.replay_only not in (None, k):
            return
        path, f = box.flow(*fl)
        args, out = ["-B", "-G", "--tar", "--res-hi", "8"], box.path(".tar")
        for o, v in (("-x", x), ("-y", y), ("--size", z), ("--ref-xy", r)):
            if v is not None:
                args += [o, v]
        exp, org = region(x, y, z), origin(f, r)
        if exp and org:
            # a picture without pixels or with too many cells cannot be drawn
            w = exp[4] or exp[5] * (exp[1] - exp[0]) / (exp[3] - exp[2])
            h = exp[5] or exp[4] * (exp[3] - exp[2]) / (exp[1] - exp[0])
            if w < 2 or h < 2 or h > 1e6 or w > 1e6 or (exp[3] - exp[2]) / (exp[1] - exp[0]) > 3000:
                ctx.outcome("not drawable")
                return
        rc, err = box.plot(args + [path, out])
        box.count()
        if exp is None or org is None:
            ctx.outcome("refused")
            ctx.check(isinstance(rc, int) and rc > 0, "region-accepted@" + k, "status %s" % rc)
            return
        ctx.outcome("drawn")
        if not ctx.check(rc == 0, "region-status@" + k, lambda: "status %s: %s" % (rc, err[:200])):
            return
        items = dict(unpack(out))
        os.remove(out)
        s = Script(items["plot.gp"].decode())
        x0, x1, y0, y1 = exp[0] + org[0], exp[1] + org[0], exp[2] + org[1], exp[3] + org[1]
        m = max(abs(v) for v in (x0, x1, y0, y1))
        if not ctx.check(s.x and s.y and s.size, "script@" + k, "no ranges or size"):
            return
        ctx.check(close(s.x[0], x0, m) and close(s.x[1], x1, m), "xrange@" + k, lambda: "%s instead of %r:%r" % (s.x, x0, x1))
        ctx.check(close(s.y[0], y0, m) and close(s.y[1], y1, m), "yrange@" + k, lambda: "%s instead of %r:%r" % (s.y, y0, y1))
        W, H = s.size
        ctx.check((exp[4] in (None, W)) and (exp[5] in (None, H)), "size@" + k, lambda: "%s instead of %s" % (s.size, exp[4:]))
        ctx.check(abs(H - W * (y1 - y0) / (x1 - x0)) < 2.0001 or abs(W - H * (x1 - x0) / (y1 - y0)) < 2.0001, "square@" + k, lambda: "%s pixels of %s by %s" % (s.size, x1 - x0, y1 - y0))
        xs, ys, vals = grid(items["map_vorticity"])
        d, u = (x1 - x0) / 8, 4 * 2 ** -23 * m
        ctx.check(len(xs) == 9 and all(abs(a - (x0 + d * i)) <= u for i, a in enumerate(xs)), "map-x@" + k, lambda: "%s from %r by %r" % (xs, x0, d))
        ctx.check(all(abs(a - (y0 + d * i)) <= u * 2 + 1e-6 * d * i for i, a in enumerate(ys)), "map-y@" + k, lambda: "%s from %r by %r" % (ys[:9], y0, d))
        ctx.check(y1 - d * 1e-5 - u * 2 <= ys[-1] < y1 + 1.001 * d + u * 2, "map-covers@" + k, lambda: "rows to %r, region to %r" % (ys[-1], y1))
        bodies(ctx, k, f, s, items)
    core.pmap(one, jobs)


def corners(f, i):
    rows = f["sets"]["body%02d" % i]["rows"]
    pts = [(r[0], r[1]) for r in rows]
    pts += pts[:1]
    return b"".join(struct.pack("ff", *p) for p in pts)


def nbodies(f):
    return sum(1 for s in f["sets"] if re.fullmatch(r"body\d+", s))


OTHER = ("map_vorticity", "map_pressure", "isopressure", "map_velocity_x", "map_velocity_y", "vortex_list", "map_streamfunction", "streamlines",
         "body_holders", "body_springs", "ttree_bottom_nodes", "ttree_near_nodes", "ttree_find_node")


def bodies(ctx, k, f, s, items):
    """the bodies that the script draws, in order, are those of the file"""
    drawn = [n for n, _ in s.refs if n not in OTHER]
    n = nbodies(f)
    if not ctx.check(len(drawn) == n, "bodies@" + k, lambda: "%s drawn of %d" % (drawn, n)):
        return
    for i, name in enumerate(drawn):
        if ctx.check(name in items, "missing@" + k, lambda: "%r refers to nothing" % name):
            ctx.check(items[name] == corners(f, i), "body-data@" + k, lambda: "the data of %r is not body %d" % (name, i))


# ---------------------------------------------------------------- contents
OPTIONS = [["-B"], ["-V"], ["--V", "0"], ["--V", "7"], ["-S"], ["--S", "-1,1.5,0.25"], ["-G"], ["--G", "3"], ["-P"], ["--P", "-2,0.5"], ["-Ux"], ["-Uy"],
           ["--Ux", "-0.5,2"], ["--Uy", "0.5,1.5"], ["--Uy", "-1.5,-1.5"], ["--gray"], ["--no-gray"], ["--colorbox"], ["--no-colorbox"], ["--no-timelabel"], ["--holder"], ["--spring"],
           ["--ttree-bottom-nodes"], ["--ttree-near-nodes"], ["--ttree-find-node"], ["--eps", "1"], ["--ref-S", "b"], ["--ref-S", "f"], ["--ref-P", "o"],
           ["--ref-P", "b"], ["--ref-P", "f"]]
FLOWS = [("still", 0, ()), ("still", 0, ("",)), ("uniform", 5, ()), ("along", 0, ()), ("up", 20, ("",)), ("moving", 300, ("", "a wing")), ("sink", 12, ("",))]
HI, LO = 32, 16
# x, y, size, the frame and where it is
REGIONS = [(-2.0, 2.0, -1.0, 1.5, 64, 40, None), (-1.0, 3.0, -1.5, 1.0, 64, 40, "f"), (-1.0, 3.0, -1.5, 1.0, 64, 40, "b")]


def meaning(opts):
    m = dict(B=False, V=False, vsize=4, S=None, map=None, eps=2.0, refS="o", refP="s", P=(-1.5, 1.0), G=None, U=(None, None), gray=False, colorbox=None, time=True, holder=False, spring=False, tree=[])
    for o in opts:
        n, v = o[0], o[1] if len(o) > 1 else None
        if n == "-B": m["B"] = True
        elif n in ("-V", "--V"): m["V"] = True; m["vsize"] = int(v) if v else m["vsize"]
        elif n == "-S": m["S"] = m["S"] or "auto"
        elif n == "--S": m["S"] = tuple(float(x) for x in v.split(","))
        elif n in ("-G", "--G"): m["map"] = "vorticity"; m["G"] = float(v) if v else m["G"]
        elif n in ("-P", "--P"): m["map"] = "pressure"; m["P"] = tuple(float(x) for x in v.split(",")) if v else m["P"]
        elif n in ("-Ux", "-Uy"): m["map"] = "velocity_" + n[2]
        elif n in ("--Ux", "--Uy"): m["map"] = "velocity_" + n[3]; m["U"] = tuple(float(x) for x in v.split(","))
        elif n in ("--gray", "--no-gray"): m["gray"] = n == "--gray"
        elif n in ("--colorbox", "--no-colorbox"): m["colorbox"] = n == "--colorbox"
        elif n == "--no-timelabel": m["time"] = False
        elif n == "--holder": m["holder"] = True
        elif n == "--spring": m["spring"] = True
        elif n.startswith("--ttree"): m["tree"].append(n[8:].split("-")[0])
        elif n == "--eps": m["eps"] = float(v)
        elif n == "--ref-S": m["refS"] = v
        elif n == "--ref-P": m["refP"] = v
        if n in ("-G", "--G", "-P", "--P", "-Ux", "-Uy", "--Ux", "--Uy"):
            m["colorbox"] = None
    return m


class Lib:
    """The library's answers for one flow and region, asked for at once"""
    def __init__(self, box, path, reg, org):
        self.x0, self.y0 = reg[0] + org[0], reg[2] + org[1]
        self.x1, self.y1 = reg[1] + org[0], reg[3] + org[1]
        self.hi, self.lo = (self.x1 - self.x0) / HI, (self.x1 - self.x0) / LO
        self.nhi, self.nlo = math.ceil((self.y1 - self.y0) / self.hi), math.ceil((self.y1 - self.y0) / self.lo)
        rq = []
        for e in (1.0, 2.0):
            rq += [self.rq("vorticity", o, "o", e) for o in ("map", "range")]
            for r in "sobf":
                rq += [self.rq("pressure", "map", r, e)] + [self.rq("pressure", "lines", r, e, a, b, (b - a) / 33.) for a, b in ((-1.5, 1.0), (-2.0, 0.5))]
            for r in "obf":
                rq += [self.rq("streamfunction", "map", r, e)] + [self.rq("streamfunction", "lines", r, e, *l) for l in ((0.0, 0.0, 0.0), (-1.0, 1.5, 0.25))]
        for r in "obf":
            rq += [self.rq(c, o, r, 2.0) for c in ("velocity_x", "velocity_y") for o in ("map", "range")]
        rq += [self.rq("tree", o) for o in ("bottom", "near", "find")]
        self.res = box.library(path, rq)

    def rq(self, what, out, ref="o", e=2.0, a=0.0, b=0.0, s=0.0):
        low = what in ("streamfunction", "tree")
        d, n, m = (self.lo, LO, self.nlo) if low else (self.hi, HI, self.nhi)
        one = 0 if what == "tree" else 1
        return (what, out, ref, e, self.x0, self.y0, d, n + one, m + one, a, b, s)

    def get(self, *a, **k):
        return self.res[self.rq(*a, **k)]


def expected(m, f, lib, reg):
    """{item: bytes}, references in the plot (a set), the range of the colours; None: refused"""
    items, refs, cb = {}, set(), None
    has_body = nbodies(f) > 0
    if m["map"]:
        n = m["map"]
        ref = {"vorticity": "o", "pressure": m["refP"]}.get(n, m["refS"])
        eps = m["eps"] if n in ("vorticity", "pressure") else 2.0
        data = lib.get(n, "map", ref, eps)
        if data is None or (ref == "b" and not has_body):
            return None
        items["map_" + n] = data
        refs.add("map_" + n)
        if n == "pressure":
            items["isopressure"] = lib.get(n, "lines", ref, eps, m["P"][0], m["P"][1], (m["P"][1] - m["P"][0]) / 33.)
            refs.add("isopressure")
            cb = m["P"]
        else:
            lo, hi, p02, p98 = (float(v) for v in lib.get(n, "range", ref, eps).split())
            if n == "vorticity":
                g = m["G"] or max(-p02, p98)
                cb = (-g, g)
            else:
                cb = (lo if m["U"][0] is None else m["U"][0], hi if m["U"][1] is None else m["U"][1])
    if m["S"]:
        ref = m["refS"]
        l = (0.0, 0.0, 0.0) if m["S"] == "auto" else m["S"]
        data = lib.get("streamfunction", "map", ref, m["eps"])
        if data is None or (ref == "b" and not has_body):
            return None
        items["map_streamfunction"], items["streamlines"] = data, lib.get("streamfunction", "lines", ref, m["eps"], *l)
        refs.add("streamlines")
    if m["V"]:
        items["vortex_list"] = b"".join(struct.pack("fff", *r[:3]) for r in f["sets"].get("vort", {"rows": []})["rows"])
        refs.add("vortex_list")
    for t in m["tree"]:
        n = {"bottom": "ttree_bottom_nodes", "near": "ttree_near_nodes", "find": "ttree_find_node"}[t]
        items[n] = lib.get("tree", t)
        refs.add(n)
    if m["holder"]: refs.add("body_holders")
    if m["spring"]: refs.add("body_springs")
    return items, refs, cb


def positions(f):
    h, s = [], []
    for i in range(nbodies(f)):
        A = f["sets"]["body%02d" % i]["attrs"]
        p, d = A["holder_position"], A["delta_position"]
        h.append((p[0], p[1]))
        s.append((p[0] + d[0], p[1] + d[1], -d[0], -d[1]))
    return h, s


def judge(ctx, k, opts, f, lib, reg, stored):
    names = [n for n, _ in stored]
    items = dict(stored)
    ctx.check(len(set(names)) == len(names), "twice@" + k, lambda: "items %s" % names)
    if not ctx.check("plot.gp" in items, "script@" + k, "no script"):
        return
    s = Script(items["plot.gp"].decode())
    m = meaning(opts)
    want, refs, cb = expected(m, f, lib, reg)
    for n, data in want.items():
        if ctx.check(n in items, "missing@" + k, lambda: "no item %s" % n):
            ctx.check(items[n] == data, "item:%s@%s" % (n, k), lambda: "%d bytes, %d expected; differ from byte %d" % (
                len(items[n]), len(data), next((i for i, (a, b) in enumerate(zip(items[n], data)) if a != b), min(len(items[n]), len(data)))))
    got = {n for n, _ in s.refs if n in OTHER}
    ctx.check(got == refs, "drawn@" + k, lambda: "%s instead of %s" % (sorted(got), sorted(refs)))
    for n, _ in s.refs:
        ctx.check(n in items, "missing@" + k, lambda: "the script refers to %r" % n)
    if m["B"]:
        bodies(ctx, k, f, s, items)
    else:
        ctx.check(not [n for n, _ in s.refs if n not in OTHER], "bodies@" + k, "bodies are drawn without -B")
    ctx.check(close(s.x[0], lib.x0, 10) and close(s.x[1], lib.x1, 10) and close(s.y[0], lib.y0, 10) and close(s.y[1], lib.y1, 10), "range@" + k, lambda: "%s %s" % (s.x, s.y))
    ctx.check(s.size == reg[4:6], "size@" + k, lambda: str(s.size))
    pixel = (lib.x1 - lib.x0) / reg[4]
    if m["V"]:
        v = [o for n, o in s.refs if n == "vortex_list"]
        c = [re.search(r"\(\s*(%s)\s*\)" % NUM, o) for o in v if "circles" in o]
        if m["vsize"] == 0:
            ctx.check(not c, "circles@" + k, "circles without a size")
        else:
            ctx.check(len(c) == 1 and c[0] and abs(float(c[0].group(1)) - pixel * m["vsize"] / 2) < 1e-6 * pixel * m["vsize"], "circles@" + k,
                      lambda: "%s instead of a radius of %r" % (v, pixel * m["vsize"] / 2))
    if m["holder"] or m["spring"]:
        hs, sp = positions(f)
        for n, e in (("body_holders", hs), ("body_springs", sp)):
            if n in refs:
                rows = [[float(x) for x in l.split()] for l in items.get(n, b"").decode().splitlines()]
                ctx.check(len(rows) == len(e) and all(len(a) == len(b) and all(abs(x - y) < 1e-12 for x, y in zip(a, b)) for a, b in zip(rows, e)), "item:%s@%s" % (n, k),
                          lambda: "%s instead of %s" % (rows, e))
    if cb:
        lo, hi = cb
        ok = s.cb is not None and s.cb[0] < s.cb[1]
        if ok and lo < hi:
            ok = abs(s.cb[0] - lo) <= 1e-12 * max(1, abs(lo)) and abs(s.cb[1] - hi) <= 1e-12 * max(1, abs(hi))
        elif ok:
            ok = s.cb[0] <= lo <= s.cb[1]
        ctx.check(ok, "colours@" + k, lambda: "cbrange %s instead of %r" % (s.cb, cb))
        p = s.palette
        if ctx.check(p is not None and p == sorted(p) and p[0] < p[-1], "palette@" + k, lambda: str(p)):
            if m["map"].startswith("velocity") and s.cb[0] < 0 < s.cb[1]:
                # the colour of zero
                z = p[0] + (p[-1] - p[0]) * (0 - s.cb[0]) / (s.cb[1] - s.cb[0])
                ctx.check(min(abs(z - q) for q in p) < 1e-4 * (p[-1] - p[0]), "palette-zero@" + k, lambda: "%s over %s" % (p, s.cb))
            if m["gray"] and not m["map"].startswith("velocity"):
                ctx.check(all(re.fullmatch(r"#(..)\1\1", c) for c in s.colors), "gray@" + k, lambda: str(s.colors))
        box_ = m["colorbox"] if m["colorbox"] is not None else True
        lab = [re.search(r'set label %d\s+"(%s)"' % (i, NUM), s.text) for i in (61, 62)]
        ctx.check(all(lab) and all(abs(float(l.group(1)) - c) < 0.0501 for l, c in zip(lab, s.cb or cb)), "labels@" + k, lambda: "%s for %s" % ([l and l.group(1) for l in lab], s.cb))
    else:
        box_ = m["colorbox"] or False
    ctx.check(s.has(r"^set colorbox") == box_ and s.has(r"^unset colorbox") != box_, "colorbox@" + k, lambda: "drawn: %s" % s.has(r"^set colorbox"))
    t = re.search(r'set label "t = (%s)"' % NUM, s.text)
    if m["time"]:
        ctx.check(t and abs(float(t.group(1)) - sim.frac(f["attrs"]["time"])) < 1e-6 if "time" in f["attrs"] and isinstance(f["attrs"]["time"], list) else t, "time@" + k, lambda: str(t and t.group(1)))
    else:
        ctx.check(not t, "time@" + k, "a time label although there was to be none")


def arguments(reg):
    a = ["-x", "%r,%r" % reg[:2], "-y", "%r,%r" % reg[2:4], "--size", "%dx%d" % reg[4:6], "--res-hi", str(HI), "--res-lo", str(LO)]
    return a + (["--ref-xy", reg[6]] if reg[6] else [])


def shown(rc_text):
    """what the stand-in printed: (script without comments, data)"""
    parts = rc_text.split(b"\n==\n")
    script = b"\n".join(l for l in parts[0].split(b"\n") if l and not l.startswith(b"#"))
    return script, parts[1:]


def via(stored):
    """what the stand-in has to print for a package"""
    items = dict(stored)
    text = items["plot.gp"].decode("latin-1")
    text = "\n".join(l for l in text.split("\n") if l and not l.startswith("#"))
    data = []

    def rep(m):
        n = m.group(1)
        if n.encode("latin-1").decode("utf-8", "surrogateescape") in items:
            data.append(items[n.encode("latin-1").decode("utf-8", "surrogateescape")])
            return "'FD'"
        return m.group(0)
    text = re.sub(r"'([^'\n]+)'", rep, text)
    return text.encode("latin-1"), data


def png_size(b):
    return struct.unpack(">II", b[16:24]) if b[:8] == b"\x89PNG\r\n\x1a\n" and b[-8:-4] == b"IEND" else None


def contents(box):
    ctx = box.ctx
    single = [[o] for o in OPTIONS]
    pairs = [[a, b] for a, b in itertools.permutations(OPTIONS, 2) if a[0] != b[0]]
    idx = {tuple(o): i for i, o in enumerate(OPTIONS)}
    fields = ("-G", "--G", "-P", "--P", "-Ux", "-Uy", "--Ux", "--Uy")

    def ordered(p):  # the order matters only between those that choose a field or a size
        return idx[tuple(p[0])] < idx[tuple(p[1])] or (p[0][0] in fields and p[1][0] in fields)
    pairs = [p for p in pairs if ordered(p)]
    triples = [list(p) for p in itertools.combinations(OPTIONS, 3) if len({o[0] for o in p}) == 3] if ctx.thorough else []
    libs = {}
    todo = []
    for fi, fl in enumerate(FLOWS):
        path, f = box.flow(*fl)
        for ri, reg in enumerate(REGIONS):
            org = origin(f, reg[6])
            if org is None:
                continue
            todo.append((fi, ri, path, reg, org))
    for (fi, ri, path, reg, org), l in zip(todo, core.pmap(lambda a: Lib(box, a[2], a[3], a[4]), todo)):
        libs[fi, ri] = l
    jobs = []
    for fi, ri, path, reg, org in todo:
        for n, o in enumerate(single + pairs + triples):
            deep = n < len(single) or ri == 0 and (ctx.thorough or fi in (4, 5))
            if not deep and not ctx.thorough and (n + fi + ri) % 4:
                continue
            jobs.append((fi, ri, o, n < len(single) and (ri == 0 or ctx.thorough)))

    def one(j):
        fi, ri, opts, draw = j
        k = "plot:%s-%d-%d:%d:%s" % (FLOWS[fi][0], FLOWS[fi][1], len(FLOWS[fi][2]), ri, " ".join(" ".join(o) for o in opts))
        if ctx.replay_only not in (None, k):
            return
        path, f = box.flow(*FLOWS[fi])
        reg, lib = REGIONS[ri], libs[fi, ri]
        args = arguments(reg) + [x for o in opts for x in o]
        out = box.path(".tar")
        rc, err = box.plot(args + ["--tar", path, out])
        box.count()
        if expected(meaning(opts), f, lib, reg) is None:
            ctx.outcome("refused")
            ctx.check(isinstance(rc, int) and rc > 0, "accepted@" + k, "status %s although there is no body to refer to" % rc)
            return
        if not ctx.check(rc == 0, "status@" + k, lambda: "status %s: %s" % (rc, err[:300])):
            return
        ctx.outcome("packed")
        stored = unpack(out)
        judge(ctx, k, opts, f, lib, reg, stored)
        # the same script and data reach gnuplot
        if draw or hash_(k) % (1 if ctx.thorough else 6) == 0:
            a, b = box.path(".a"), box.path(".b")
            ra, ea = box.plot(args + [path, a], fake=True)
            rb, eb = box.plot([out, b], fake=True)
            box.count()
            if ctx.check(ra == 0 and rb == 0, "exec-status@" + k, lambda: "%s %s: %s" % (ra, rb, (ea + eb)[:200])):
                A, B = shown(open(a, "rb").read()), shown(open(b, "rb").read())
                ctx.check(A == B, "direct-differs@" + k, lambda: diff(A, B))
                ctx.check(B == via(stored), "package-differs@" + k, lambda: diff(B, via(stored)))
                ctx.outcome("passed to gnuplot")
            remove(a, b)
        if draw and meaning(opts)["map"] is not None or draw and any(o[0] in ("-B", "-V", "-S", "--holder", "--spring", "--S", "--V") for o in opts):
            pictures(box, k, args, path, out, reg)
        remove(out)
        if len(opts) > 1:
            ctx.sample(k)
    core.pmap(one, jobs)


def pictures(box, k, args, path, tar, reg):
    ctx = box.ctx
    a, b, d = box.path(".png"), box.path(".png"), box.path(".d")
    ra, ea = box.plot(args + [path, a])
    rb, eb = box.plot([tar, b])
    os.makedirs(d)
    with tarfile.open(tar) as t:
        t.extractall(d, filter="data")
    rc, png, ec = ctx.call(["gnuplot", "plot.gp"], d)
    box.count()
    A, B = (open(p, "rb").read() if os.path.exists(p) else b"" for p in (a, b))
    ctx.check(ra == 0 and png_size(A) == reg[4:6], "picture@" + k, lambda: "status %s, %s: %s" % (ra, png_size(A), ea[-300:]))
    ctx.check(rb == 0 and A == B, "picture-of-package@" + k, lambda: "status %s, %d bytes, %d directly: %s" % (rb, len(B), len(A), eb[-300:]))
    ctx.check(rc == 0 and A == png, "picture-unpacked@" + k, lambda: "status %s, %d bytes, %d directly: %s" % (rc, len(png), len(A), ec.decode(errors="replace")[-300:]))
    ctx.outcome("drawn by gnuplot")
    shutil.rmtree(d, ignore_errors=True)
    remove(a, b)


def diff(A, B):
    if A[0] != B[0]:
        for x, y in itertools.zip_longest(A[0].split(b"\n"), B[0].split(b"\n")):
            if x != y:
                return "script: %r and %r" % (x, y)
    return "data: %s and %s bytes" % ([len(x) for x in A[1]], [len(x) for x in B[1]])


def remove(*paths):
    for p in paths:
        if os.path.exists(p):
            os.remove(p)


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


# ---------------------------------------------------------------- packing
LABELS = ["", "wing", "body00", "body01", "body01_", "vortex_list", "map_vorticity", "streamlines", "plot.gp", "body_holders", "it's", "''", '"', "a/b", "../x", "/tmp/x", "-", "--", "+", "< echo 1",
          "$x", "@x", "`x`", "~", ".", "..", "a b", " ", "a\\", "new\nline", "a,b", "крыло", "x" * 70, "y" * 300, "#", "EMPTY"]


def packing(box):
    ctx = box.ctx
    jobs = []
    small = ["", "wing", "body00", "body01", "body01_", "body02"]
    sets = [(a,) for a in LABELS] + [(a, b) for a in LABELS for b in LABELS] + list(itertools.product(small, repeat=3))
    if ctx.thorough:
        sets += list(itertools.product(small + ["vortex_list", "body_springs", "it's", "EMPTY"], repeat=4))
    for ls in sets:
        jobs.append((ls, 3))
    for n in (10, 100, 101) if not ctx.thorough else (10, 99, 100, 101, 500):
        jobs += [(("",) * n, 0), (("x",) * n, 0), (tuple("body%02d" % (n - i) for i in range(n)), 0)]
    for nv in (0, 1, 2, 42, 43, 85, 86, 128, 256, 1000, 1365, 1366) + ((700000,) if not ctx.thorough else (700000, 2000000)):
        jobs.append((("",), nv))

    def one(j):
        ls, nv = j
        k = "labels:%s:%d" % ("|".join(l[:20].replace("\n", "\\n") for l in ls[:4]) + (str(len(ls)) if len(ls) > 4 else ""), nv)
        if ctx.replay_only not in (None, k):
            return
        path, f = box.flow("uniform", nv, ls)
        out = box.path(".tar")
        args = ["-x", "-2,2", "-y", "-1,1.5", "--size", "64x40", "--res-hi", "4", "--res-lo", "4"]
        opts = ["-B", "--holder", "--spring"] + (["-V"] if nv % 2 == 0 or nv > 1000 else []) + (["-G", "-S"] if nv < 50 and len(ls) < 4 else [])
        rc, err = box.plot(args + opts + ["--tar", path, out])
        box.count()
        try:
            if not ctx.check(rc == 0, "pack-status@" + k, lambda: "status %s: %s" % (rc, err[:300])):
                return
            stored = unpack(out)
            names, items = [n for n, _ in stored], dict(stored)
            ctx.check(len(set(names)) == len(names), "twice@" + k, lambda: "items %s" % names)
            ctx.check(all(n and not n.startswith("/") and ".." not in n.split("/") and "\n" not in n for n in names), "names@" + k, lambda: "items %s" % names)
            s = Script(items["plot.gp"].decode())
            for n, _ in s.refs:
                ctx.check(n in items, "missing@" + k, lambda: "the script refers to %r, items %s" % (n, names))
            bodies(ctx, k, f, s, items)
            if "-V" in opts:
                rows = f["sets"].get("vort", {"rows": []})["rows"]
                ctx.check(items.get("vortex_list") == b"".join(struct.pack("fff", *r[:3]) for r in rows), "item:vortex_list@" + k, "")
            want = {"body_holders", "body_springs"} | ({"vortex_list"} if "-V" in opts else set()) | ({"map_vorticity", "streamlines"} if "-G" in opts else set())
            got = {n for n, _ in s.refs if n in OTHER}
            ctx.check(got == want, "drawn@" + k, lambda: str(got))
            a, b = box.path(".a"), box.path(".b")
            ra, ea = box.plot(args + opts + [path, a], fake=True)
            rb, eb = box.plot([out, b], fake=True)
            if ctx.check(ra == 0 and rb == 0, "exec-status@" + k, lambda: "%s %s: %s" % (ra, rb, (ea + eb)[:200])):
                A, B = shown(open(a, "rb").read()), shown(open(b, "rb").read())
                ctx.check(A == B, "direct-differs@" + k, lambda: diff(A, B))
                ctx.check(B == via(stored), "package-differs@" + k, lambda: diff(B, via(stored)))
            remove(a, b)
            if len(ls) == 1 and nv < 2000 or len(ls) == 10:
                pictures(box, k, args + opts, path, out, (0, 0, 0, 0, 64, 40))
            ctx.outcome("labels")
        finally:
            remove(out, path)
            box.flows.pop(("uniform", nv, tuple(ls)), None)
    core.pmap(one, jobs)


# ---------------------------------------------------------------- fields read back, names, malformed options
def loading(box):
    ctx = box.ctx
    for fl in (("up", 20, ("",)), ("moving", 30, ("", "a")), ("uniform", 5, ())):
        path, f = box.flow(*fl)
        reg = REGIONS[0]
        for o in (["-S"], ["--S", "-1,1.5,0.25"], ["-Ux"], ["-Uy"], ["--Ux", "-0.5,2"], ["-S", "-B", "-V"], ["-Uy", "-B"]):
            k = "load:%s:%s" % (fl[0], " ".join(o))
            if ctx.replay_only not in (None, k):
                continue
            a, b, c, d = (box.path(".tar") for _ in range(4))
            r1, e1 = box.plot(arguments(reg) + o + ["--tar", path, a])
            if not ctx.check(r1 == 0, "status@" + k, lambda: "%s %s" % (r1, e1[:200])):
                continue
            stored = unpack(a)
            items = dict(stored)
            name = next(n for n in items if n == "map_streamfunction" or n.startswith("map_velocity"))
            fld = box.path(".fld")
            with open(fld, "wb") as h:
                h.write(items[name])
            r2, e2 = box.plot(arguments(reg) + o + ["--load-field", fld, "--tar", path, b])
            box.count()
            if ctx.check(r2 == 0, "load-status@" + k, lambda: "%s %s" % (r2, e2[:200])):
                again = dict(unpack(b))
                cut = lambda q: [l for l in q.split(b"\n") if not l.startswith(b"#")]
                bad = [n for n in set(items) | set(again) if n != "plot.gp" and items.get(n) != again.get(n)]
                ctx.check(not bad and cut(items["plot.gp"]) == cut(again["plot.gp"]), "load-differs@" + k, lambda: "items %s" % bad)
            for what, data in (("missing", None), ("empty", b""), ("cut", items[name][:-3]), ("text", b"what is this?\n" * 20), ("directory", "/")):
                p = box.path(".bad")
                if isinstance(data, bytes):
                    with open(p, "wb") as h:
                        h.write(data)
                elif data:
                    p = data
                r3, e3 = box.plot(arguments(reg) + o + ["--load-field", p, "--tar", path, c])
                box.count()
                ctx.check(isinstance(r3, int) and 0 < r3 < 128, "load-accepted:%s@%s" % (what, k), lambda: "status %s" % r3)
            # a package of which the streamlines were taken away is drawn with new ones
            if "-S" in o[0] or o[0] == "-S":
                part = box.path(".tar")
                with tarfile.open(part, "w") as t:
                    for n, x in stored:
                        if n != "streamlines":
                            i = tarfile.TarInfo(n)
                            i.size = len(x)
                            t.addfile(i, io.BytesIO(x))
                out = box.path(".a")
                lev = o[:2] if o[0] == "--S" else []
                r4, e4 = box.plot(lev + [part, out], fake=True)
                box.count()
                if ctx.check(r4 == 0, "replot-status@" + k, lambda: "%s %s" % (r4, e4[:200])):
                    B = shown(open(out, "rb").read())
                    ctx.check(B == via(stored), "replot@" + k, lambda: diff(B, via(stored)))
    # where the result goes
    path, f = box.flow("up", 20, ("",))
    for inp in ("in.h5", "in", "a.b.h5", "d.x/in", "d.x/in.h5"):
        for form in ("--tar", "--png"):
            for target in ("out", "out/", "./out", "file"):
                k = "target:%s:%s:%s" % (inp, form, target)
                if ctx.replay_only not in (None, k):
                    continue
                d = box.path(".t")
                os.makedirs(d + "/out")
                os.makedirs(d + "/d.x")
                shutil.copyfile(path, d + "/" + inp)
                before = files(d)
                rc, err = box.plot(["-B", "-x", "-2,2", "-y", "-1,1", form, inp, target], fake=True, cwd=d)
                box.count()
                base = os.path.basename(inp)
                base = base[:base.rindex(".")] if "." in base else base
                exp = "file" if target == "file" else "out/%s%s" % (base, {"--tar": ".tar", "--png": ".png"}[form])
                new = files(d) - before
                ctx.check(rc == 0 and new == {exp}, "target@" + k, lambda: "status %s, %s instead of %s: %s" % (rc, sorted(new), exp, err[:200]))
                shutil.rmtree(d, ignore_errors=True)


def files(d):
    return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}


BAD = [["-x"], ["-x", ""], ["-x", "1,"], ["-x", "1,2,"], ["--size", "x"], ["--size", "10x"], ["--size", "10x-1"], ["--size", "10x10x"], ["--V", "-1"], ["--V", "x"], ["--V", "1.5"], ["--S", "1"], ["--S", "1,2"],
       ["--S", "2,1,0.1"], ["--S", "1,2,0"], ["--S", "1,2,-1"], ["--S", "nan,2,1"], ["--S", "1,inf,1"], ["--S", "0,1,nan"], ["--S", "1,2,3,4"], ["--G", "-1"], ["--G", "x"], ["--G", "nan"], ["--G", "inf"], ["--G", "1,2"],
       ["--P", "1"], ["--P", "2,1"], ["--P", "nan,1"], ["--P", "0,inf"], ["--P", "0,1,2"], ["-U"], ["-Uz"], ["-Uxy"], ["--Ux", "1"], ["--Ux", "2,1"], ["--Uy", "nan,1"], ["--Uy", "0,1,2"], ["--Uz", "0,1"],
       ["--eps", "0"], ["--eps", "-1"], ["--eps", "nan"], ["--eps", "x"], ["--eps", "1 2"], ["--res-hi", "0"], ["--res-hi", "-4"], ["--res-hi", "x"], ["--res-hi", "1.5"], ["--res-lo", "0"], ["--res-lo", "-1"], ["--res-lo", ""],
       ["--ref-xy", "z"], ["--ref-xy", ""], ["--ref-xy", "bz"], ["--ref-xy", "s"], ["--ref-S", "s"], ["--ref-S", "x"], ["--ref-S", "oo"], ["--ref-S", ""], ["--ref-P", "x"], ["--ref-P", "ss"], ["--ref-P", ""],
       ["--unknown"], ["-q"], ["--tar=1"], ["--png", "extra"], ["--gray=1"]]


def malformed(box):
    ctx = box.ctx
    path, f = box.flow("up", 20, ("",))
    reg = REGIONS[0]

    def one(j):
        what, args, inp, tail = j
        k = "bad:%s" % what
        if ctx.replay_only not in (None, k):
            return
        out = box.path(".out")
        rc, err = box.plot(args + [inp] + ([out] if tail else []), fake=True)
        box.count()
        ctx.check(isinstance(rc, int) and rc > 0 and err.strip(), "malformed@" + k, lambda: "status %s: %s" % (rc, err[:200]))
        ctx.outcome("refused")
        remove(out)
    jobs = [("%s %s" % (" ".join(b), form), (b if b[0] in ("-x", "--size") else arguments(reg) + ["-S", "-B"] + b) + [form], path, True) for b in BAD if len(b) > 1 or b[0] not in ("-x", "-U") for form in ("--tar", "--png")]
    jobs += [("no target", arguments(reg), path, False), ("three files", arguments(reg) + [path], path, True)]
    text = box.path(".txt")
    with open(text, "w") as h:
        h.write("text\n" * 100)
    for form in ("--tar", "--png"):
        jobs += [("%s input %s" % (form, n), arguments(reg) + ["-B", form], p, True) for n, p in (("missing", "/nonexistent"), ("text", text), ("directory", box.bin))]
    cut = box.path(".h5")
    with open(path, "rb") as h, open(cut, "wb") as o:
        o.write(h.read()[:1500])
    jobs += [("cut " + form, arguments(reg) + ["-B", form], cut, True) for form in ("--tar", "--png")]
    # packages that are damaged
    good = box.path(".tar")
    box.plot(arguments(reg) + ["-B", "-G", "--tar", path, good])
    data = open(good, "rb").read()
    for n in (100, 512 + 100, len(data) - 2048):
        p = box.path(".tar")
        with open(p, "wb") as o:
            o.write(data[:n])
        jobs.append(("cut package %d" % n if n < 1000 else "cut package end", [], p, True))
    core.pmap(one, jobs)


def run(ctx):
    box = Box(ctx)
    only = ctx.replay_only
    for kinds, fn in ((("region",), regions), (("plot",), contents), (("labels",), packing), (("load", "target"), loading), (("bad",), malformed)):
        if only is None or only.split(":")[0] in kinds:
            fn(box)
    ctx.rule = RULE
