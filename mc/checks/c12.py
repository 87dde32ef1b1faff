import os
import time

from mc import core

RULE = ("Every sequence of DEPTH operations (and so every shorter one) out of the alphabets: on each of the four element lists append of "
        "good, wrong, mixed and own elements, loads of good, missing, garbled, cut and empty text and binary files, clear, assignments, "
        "changes of elements and through handles held across operations, wrong receivers, growth while iterating; on the body list insert, "
        "erase, clear, save and load, dropped references, held vectors, wrong arguments. Run by the real interpreter built with the "
        "address sanitizer; after every operation length, indexing, iteration and table are compared with a plain table, an operation "
        "that must fail has to raise an error and change nothing. Non-trivial: the list is not empty at the end.")

LISTS = ("vort_list", "sink_list", "streak_source_list", "streak_domain_list")


def run(ctx):
    b = core.build_repo("asan", targets=("vvflow",))
    exe = core.binary(b, "vvflow")
    lua = os.path.join(core.VERIF, "harness", "c12.lua")
    plan = []
    for l in LISTS:
        plan.append(("obj:" + l, 3, 2, "all"))
    plan.append(("obj:vort_list", 5 if ctx.thorough else 4, 8, "core"))
    plan.append(("body", 3, 8, "all"))
    plan.append(("body", 5 if ctx.thorough else 4, 8, "core"))
    if ctx.thorough:
        plan.append(("obj:sink_list", 4, 32, "all"))
        plan.append(("body", 4, 32, "all"))
    jobs = [(w, i, n, d, a) for w, d, n, a in plan for i in range(n)]
    only = ""
    if ctx.replay_only:
        w, only = ctx.replay_only.split("|")
        jobs = [(w, 0, 1, 1, "all")]

    def one(j):
        w, i, n, d, a = j
        cwd = os.path.join(ctx.scratch, "%s_%d_%s%d" % (w.replace(":", "_"), i, a, d))
        os.makedirs(cwd)
        rc, out, err = ctx.call([exe, lua, w, str(i), str(n), str(d), only, a], cwd, timeout=3000 if ctx.thorough else 700,
                                env={"ASAN_OPTIONS": core.ENV["ASAN_OPTIONS"] + ":detect_stack_use_after_return=0"})
        done = False
        for l in out.decode("latin-1").splitlines():
            f = l.split("\t")
            if f[0] == "V":
                ctx.violation("%s@%s|%s" % (f[1], w, f[2]), f[3], {"case": "%s|%s" % (w, f[2])})
            elif f[0] == "E":
                done = True
                with ctx.lock:
                    ctx.evaluations += int(f[1])
                    ctx.nontrivial += int(f[2])
        if rc == "timeout" and os.path.exists(cwd + "/cur") and time.time() - os.path.getmtime(cwd + "/cur") < 60:
            # it was still going on: too much for this machine, not a hang
            ctx.exhaustive = False
            ctx.extra.setdefault("capped", []).append("shard %d stopped by its time cap" % i)
        elif not done:
            cur = open(cwd + "/cur").read() if os.path.exists(cwd + "/cur") else only
            e = err.decode(errors="replace")
            m = [x for x in e.splitlines() if "ERROR: AddressSanitizer" in x or " in " in x and "/repo" in x][:3] or e.splitlines()[-3:]
            ctx.violation("crash@%s|%s" % (w, cur), "rc=%s at or up to 64 cases after %s: %s" % (rc, cur, " | ".join(m)[:600]), {"case": "%s|%s" % (w, cur)})
            ctx.exhaustive = False
        ctx.sample("%s: shard %d of %d, depth %d, %s operations" % j, 6)

    core.pmap(one, jobs)
    ctx.rule = RULE.replace("DEPTH", "3, of 4 on one element list and on the body list, and of 5 changing" if ctx.thorough else "3, and of 4 changing")
