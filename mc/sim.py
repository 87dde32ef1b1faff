"""Running vvflow problems and reading what they leave behind."""
import json
import math
import os
import shutil
import struct
import subprocess
from fractions import Fraction

from mc import core


class Tools:
    def __init__(self, variant="plain"):
        self.b = core.build_repo(variant, targets=("vvflow", "vvplot", "vvxtract"))
        self.h5read = core.build_harness("h5read", "plain", extra=["-w"], libs=["-lhdf5_serial"])
        self.vvflow = core.binary(self.b, "vvflow")
        self.vvplot = core.binary(self.b, "vvplot")
        self.vvxtract = core.binary(self.b, "vvxtract")

    def faultio(self):
        """The library that numbers, fails or kills at calls that change files"""
        so = os.path.join(self.b, "faultio.so")
        with core._Lock("faultio"):
            r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(core.VERIF, "harness", "faultio.c"), "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise core.CheckError("faultio: " + r.stdout.decode(errors="replace"))
        return so

    def omprt(self):
        """The OpenMP runtime under which schedules are explored and conflicts found"""
        so = os.path.join(self.b, "omprt.so")
        with core._Lock("omprt"):
            r = subprocess.run(["g++", "-shared", "-fPIC", "-O2", "-g1", "-w", "-fno-builtin", "-fno-threadsafe-statics", "-o", so,
                                os.path.join(core.VERIF, "harness", "omprt.cpp"), "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise core.CheckError("omprt: " + r.stdout.decode(errors="replace"))
        return so

    def flow(self, ctx, cwd, script=None, file=None, args=(), timeout=60, env=None):
        """Run a script text or a file; gives (status, stderr)."""
        os.makedirs(cwd, exist_ok=True)
        if script is not None:
            file = "run.lua"
            with open(os.path.join(cwd, file), "w") as f:
                f.write(script)
        rc, out, err = ctx.call([self.vvflow] + list(args) + [file], cwd, timeout=timeout, env=env)
        return rc, (out + err).decode(errors="replace")

    def read(self, ctx, files, cwd="/"):
        """{path: parsed file}; a file that cannot be read has an 'error'"""
        files = list(files)
        res = {}
        for i in range(0, len(files), 400):
            part = files[i:i + 400]
            rc, out, err = ctx.call([self.h5read] + part, cwd, timeout=120)
            for l in out.decode("latin-1").splitlines():
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                res[d["file"]] = d
            for p in part:
                res.setdefault(p, {"file": p, "error": "reader failed (%s)" % rc})
        return res

    def run_dir(self, ctx, cwd, caption):
        """The step record and the snapshots {number: file} of a run"""
        rd = os.path.join(cwd, "results_" + caption)
        names = sorted(os.listdir(rd)) if os.path.isdir(rd) else []
        paths = [os.path.join(rd, n) for n in names]
        sd = os.path.join(cwd, "stepdata_%s.h5" % caption)
        r = self.read(ctx, paths + ([sd] if os.path.exists(sd) else []))
        return r.get(sd), {n: r[p] for n, p in zip(names, paths)}


def frac(t):
    return Fraction(t[0], t[1])


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def close(a, b, tol, scale=0.0):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol, scale) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + scale + abs(a) + abs(b))


def compare(a, b, tol, skip=()):
    """First difference of two parsed files, or None"""
    if (a is None) != (b is None):
        return "one is missing"
    if a is None:
        return None
    for k in ("error",):
        if k in a or k in b:
            return "unreadable"
    for k in sorted(set(a["attrs"]) | set(b["attrs"])):
        if k in skip:
            continue
        if k not in a["attrs"] or k not in b["attrs"]:
            return "attribute %s: %r / %r" % (k, a["attrs"].get(k), b["attrs"].get(k))
        if not close(a["attrs"][k], b["attrs"][k], tol):
            return "attribute %s: %r / %r" % (k, a["attrs"][k], b["attrs"][k])
    for s in sorted(set(a["sets"]) | set(b["sets"])):
        if s in skip:
            continue
        x, y = a["sets"].get(s), b["sets"].get(s)
        if x is None or y is None:
            return "dataset %s in one of them only" % s
        if x["dims"] != y["dims"]:
            return "dataset %s: size %r / %r" % (s, x["dims"], y["dims"])
        for k in sorted(set(x["attrs"]) | set(y["attrs"])):
            if k in skip:
                continue
            if k not in x["attrs"] or k not in y["attrs"] or not close(x["attrs"][k], y["attrs"][k], tol):
                return "%s.%s: %r / %r" % (s, k, x["attrs"].get(k), y["attrs"].get(k))
        for i, (p, q) in enumerate(zip(x["rows"], y["rows"])):
            if not close(p, q, tol):
                return "%s row %d: %r / %r" % (s, i, p, q)
    return None


# what differs between runs for reasons of their own
INCIDENTAL = ("time_to_finish", "time_local", "git_rev", "git_info", "git_diff")


def copytree(a, b):
    shutil.copytree(a, b, symlinks=True)
