"""Shared machinery of the checks: building /repo, running explorers, evidence.

Every check is a function run(ctx) in mc/checks/<id>.py.  It enumerates a bounded
space completely, reports violations through ctx.violation(key, ...) and finally
ctx.finish() writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines and
gives the exit code.  A check never ends in anything but 0 or 1: a harness that
crashes or hangs on a case is re-run on that case alone and reported as a
violation of that case if it happens again.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD") or os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 8
DEPS = "/opt/vp/deps"

VARIANTS = {
    # plain: what users run;  asan: memory errors become loud
    "plain": dict(flags="-O2 -g0", link=""),
    "asan": dict(flags="-O1 -g1 -fsanitize=address -fno-omit-frame-pointer", link="-fsanitize=address"),
    "tsan": dict(flags="-O1 -g1 -fsanitize=thread", link="-fsanitize=thread"),
    # race: memory accesses are reported to the preloaded harness/omprt.cpp instead of a sanitizer's library
    "race": dict(flags="-O1 -g1 -fsanitize=thread", link="-fno-sanitize=thread -Wl,--unresolved-symbols=ignore-all"),
}

ENV = dict(os.environ)
ENV.update(
    PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    CC="gcc", CXX="g++", LC_ALL="C", TZ="UTC",
    OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE",
    ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1",
    PYTHONDONTWRITEBYTECODE="1",
)


class CheckError(Exception):
    pass


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_repo(variant="plain", targets=("vvflow", "vvplot", "vvxtract")):
    """Build /repo's current working tree out of tree with its own CMake files."""
    v = VARIANTS[variant]
    b = os.path.join(BUILD, variant)
    with _Lock(variant):
        os.makedirs(b, exist_ok=True)
        log = os.path.join(b, "build.log")
        _content_guard(b)
        cmds = [
            ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_MODULE_PATH=/opt/vp/cmake", "-DWITH_MANPAGES=FALSE",
             "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
             "-DCMAKE_CXX_FLAGS=%s -w" % v["flags"], "-DCMAKE_C_FLAGS=%s -w" % v["flags"],
             "-DCMAKE_EXE_LINKER_FLAGS=%s" % v["link"],
             "-DCMAKE_SHARED_LINKER_FLAGS=%s" % v["link"]],
            ["ninja", "-C", b] + ["vvhd"] + list(targets),
        ]
        for attempt in (0, 1):
            ok = True
            with open(log, "w") as f:
                for c in cmds:
                    if subprocess.call(c, stdout=f, stderr=subprocess.STDOUT, env=ENV) != 0:
                        ok = False
                        break
            if ok:
                break
            # a stale or foreign build directory: start afresh once
            if attempt == 0:
                shutil.rmtree(b, ignore_errors=True)
                os.makedirs(b, exist_ok=True)
        if not ok:
            sys.stderr.write(open(log).read()[-6000:])
            raise CheckError("build of /repo (%s) failed" % variant)
    return b


def _content_guard(b):
    """ninja goes by time stamps; a tree laid over another one may carry older ones.
    Whenever a source changed in content without becoming newer, objects go."""
    stamp = os.path.join(b, "sources.json")
    old, t = {}, 0
    if os.path.exists(stamp):
        try:
            old, t = json.load(open(stamp)), os.path.getmtime(stamp)
        except ValueError:
            old, t = {}, 0
    new, stale = {}, not old
    for top in ("libvvhd", "utils", "CMakeLists.txt", "tests", "pytest"):
        top = os.path.join(REPO, top)
        files = [top] if os.path.isfile(top) else [os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs]
        for f in files:
            try:
                h = hashlib.sha1(open(f, "rb").read()).hexdigest()
            except OSError:
                continue
            new[f] = h
            if old.get(f) != h and os.path.getmtime(f) <= t + 2:
                stale = True
    if set(old) - set(new):
        stale = True
    if stale and os.path.exists(os.path.join(b, "build.ninja")):
        subprocess.call(["ninja", "-C", b, "-t", "clean"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=ENV)
    with open(stamp, "w") as f:
        json.dump(new, f)


def binary(b, name):
    return os.path.join(b, "utils", name, name)


def build_harness(name, variant="plain", sources=None, extra=(), libs=()):
    """Compile harness/<name>.cpp against /repo's headers and the freshly built libvvhd."""
    b = build_repo(variant, targets=())
    v = VARIANTS[variant]
    out = os.path.join(b, "harness_" + name)
    srcs = [os.path.join(VERIF, "harness", s) for s in (sources or [name + ".cpp"])]
    with _Lock(variant + "_" + name):
        cmd = ["g++", "-std=c++17", "-w", "-fopenmp", "-I", os.path.join(VERIF, "harness"),
                "-I", os.path.join(REPO, "libvvhd", "headers"), "-I", os.path.join(REPO, "libvvhd", "src"),
                "-I", os.path.join(REPO, "utils"),
                "-I", DEPS + "/hdf5/include", "-I", DEPS + "/lua/src"]
        cmd += v["flags"].split() + list(extra) + srcs
        cmd += ["-o", out, "-L", os.path.join(b, "libvvhd"), "-lvvhd",
                "-Wl,-rpath," + os.path.join(b, "libvvhd"), "-lpthread", "-ldl"] + list(libs)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode:
            sys.stderr.write(r.stdout.decode(errors="replace")[-6000:])
            raise CheckError("build of harness %s failed" % name)
    return out


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.evaluations = 0
        self.nontrivial = 0
        self.states = None
        self.transitions = None
        self.traces = None
        self.level = "exploration"
        self.rule = ""
        self.samples = []
        self.exhaustive = True
        self.timeouts = 0
        self.extra = {}
        self.assumptions = []
        self.violations = []  # (key, detail, replay)
        self.lock = threading.Lock()
        self.replay_only = None
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix="vv_%s_" % prop, dir=base)
        self.outcomes = {}

    # -- reporting -----------------------------------------------------
    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def outcome(self, name, n=1):
        with self.lock:
            self.outcomes[name] = self.outcomes.get(name, 0) + n

    def violation(self, key, detail, replay=None):
        with self.lock:
            self.violations.append((key, detail, replay or {"case": key}))

    def check(self, ok, key, detail):
        if not ok:
            self.violation(key, detail() if callable(detail) else detail)
        return ok

    # -- running explorers ----------------------------------------------
    def run_harness(self, exe, args=(), shards=None, timeout=600, env=None, cwd=None, case_timeout=None):
        """Run a C++ explorer (harness/mc.hpp protocol) over all shards and merge."""
        shards = shards or NCPU
        e = dict(ENV)
        e.update(env or {})
        jobs = []

        def one(i, only=None, limit=timeout):
            d = tempfile.mkdtemp(prefix="sh%d_" % i, dir=self.scratch)
            out = os.path.join(d, "out.json")
            cur = os.path.join(d, "current")
            cmd = [exe, "--out", out, "--cur", cur, "--tier", self.tier]
            cmd += ["--only", only.encode("latin-1", "replace")] if only is not None else ["--shard", "%d/%d" % (i, shards)]
            cmd += list(args)
            err = open(os.path.join(d, "stderr"), "wb")
            try:
                rc = subprocess.run(cmd, cwd=cwd or d, stdout=err, stderr=err, env=e, timeout=limit).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            err.close()
            caseid = None
            if os.path.exists(cur):
                caseid = open(cur, "rb").read().split(b"\0")[0].decode("latin-1")
            res = None
            if rc == 0 and os.path.exists(out):
                res = json.load(open(out))
            tail = open(os.path.join(d, "stderr"), "rb").read().decode(errors="replace")
            tail = [l for l in tail.splitlines() if "ERROR: AddressSanitizer" in l or "terminate" in l or "what()" in l or "SUMMARY" in l] or tail.splitlines()[-4:]
            tail = " | ".join(tail)[:1500]
            shutil.rmtree(d, ignore_errors=True)
            return dict(rc=rc, res=res, cur=caseid, tail=tail, shard=i)

        if self.replay_only is not None:
            results = [one(0, only=self.replay_only)]
        else:
            results = pmap(one, range(shards * 1), n=min(shards, NCPU))
        for r in results:
            if r["res"] is None:
                # crashed or hung: confirm on the case alone
                c = r["cur"]
                if c:
                    again = one(r["shard"], only=c, limit=case_timeout or 120)
                    if again["res"] is None:
                        kind = "hang" if again["rc"] == "timeout" else "crash"
                        self.violation("%s:%s" % (kind, c), "%s rc=%s %s" % (kind, again["rc"], again["tail"]), {"case": c, "args": list(args)})
                        self.exhaustive = False
                        continue
                    for v in again["res"]["violations"]:
                        self.violation(v["key"], v["detail"], {"case": v["case"], "args": list(args)})
                if r["rc"] == "timeout":
                    # alone it finishes: the shard as a whole was too slow here
                    self.exhaustive = False
                    self.extra.setdefault("capped", []).append("shard %d stopped by its time cap at case %s" % (r["shard"], c))
                    continue
                raise CheckError("harness %s shard %d: rc=%s at case %r: %s" % (exe, r["shard"], r["rc"], c, r["tail"]))
            res = r["res"]
            self.evaluations += res["evaluations"]
            self.nontrivial += res["nontrivial"]
            if res.get("states") is not None:
                self.states = (self.states or 0) + res["states"]
                self.transitions = (self.transitions or 0) + res["transitions"]
            for s in res["samples"]:
                self.sample(s)
            for k, n in res["outcomes"].items():
                self.outcome(k, n)
            for v in res["violations"]:
                self.violation(v["key"], v["detail"], {"case": v["case"], "args": list(args)})
        return results

    def call(self, cmd, cwd, timeout=60, input=None, env=None):
        if self.timeouts >= 16:
            # what hangs again and again need not be waited for
            self.exhaustive = False
            return "timeout", b"", b""
        e = dict(ENV)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=cwd, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as x:
            with self.lock:
                self.timeouts += 1
            return "timeout", x.stdout or b"", x.stderr or b""

    # -- the end -----------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        shutil.rmtree(self.scratch, ignore_errors=True)
        new, seen_known = [], {}
        for key, detail, replay in self.violations:
            for k in known:
                if re.fullmatch(k["key"], key):
                    seen_known.setdefault(k["what"], 0)
                    seen_known[k["what"]] += 1
                    break
            else:
                new.append((key, detail, replay))
        cov = {"samples": self.samples or ["(none)"], "exhaustive": bool(self.exhaustive)}
        cov["evaluations"] = int(self.evaluations)
        cov["distinct_nontrivial"] = int(self.nontrivial)
        cov["rule"] = self.rule
        if self.states is not None:
            cov["states"] = int(self.states)
            cov["transitions"] = int(self.transitions or 0)
        if self.traces is not None:
            cov["traces_validated_against_impl"] = int(self.traces)
        if self.outcomes:
            cov["outcomes"] = self.outcomes
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        for what, n in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        print("%s %s: evaluations=%d nontrivial=%d states=%s transitions=%s violations=%d known=%d wall=%.1fs%s" % (
            self.prop, self.tier, self.evaluations, self.nontrivial, self.states, self.transitions,
            len(new), sum(seen_known.values()), time.time() - self.t0, "" if self.exhaustive else " (NOT exhaustive)"))
        if not new:
            return 0
        kinds = {}
        for key, _, _ in new:
            kinds[key.split("@")[0]] = kinds.get(key.split("@")[0], 0) + 1
        print("  by kind: " + ", ".join("%s x%d" % kv for kv in sorted(kinds.items())[:40]))
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        done, shown = set(), set()
        for n, (key, detail, replay) in enumerate(new):
            if key.split("@")[0] in shown and (len(shown) < 3 or n > 4) or len(done) >= 8:
                continue
            shown.add(key.split("@")[0])
            name = "%s_%s" % (self.prop, re.sub(r"[^A-Za-z0-9_.=-]+", "_", key)[:80])
            while name in done:
                name += "_"
            done.add(name)
            path = os.path.join(rdir, name + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "detail": detail, "replay": replay, "tier": self.tier,
                           "how": "cd /verif && ./check %s --replay %s" % (self.prop, path)}, f, indent=1, default=str)
            print("  %s: %s" % (key, str(detail)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(new) > len(done):
            print("  ... and %d more violations" % (len(new) - len(done)))
        return 1


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == prop]
