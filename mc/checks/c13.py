import os
import time
import re

from mc import core, sim

RULE = ("All pairs of a property (every property of the space, of a body in and out of the list, of vectors, elements and expressions, "
        "nested ones, read-only and unknown names) and a value (numbers at the limits of every type, NaN, infinities, strings valid and "
        "invalid for each type, with zero bytes, tables of all sizes, every script object, functions), from a fresh state and after a "
        "previous assignment of another value to the same property. Before and after: everything a script can read, and the saved file. "
        "Accepted: exactly the expected value reads back and nothing else changed; refused: a catchable error and nothing changed. "
        "The interpreter is built with the address sanitizer. Non-trivial: accepted assignments.")

# attributes of the saved file that belong to a property
ATTR = {
    "S.caption": {"caption"}, "S.re": {"re"}, "S.finish": {"finish"}, "S.inf_g": {"inf_circulation"}, "S.time": {"time"}, "S.dt": {"dt"},
    "S.dt_save": {"dt_save"}, "S.dt_streak": {"dt_streak"}, "S.dt_profile": {"dt_profile"}, "S.inf_vx": {"inf_speed_x"}, "S.inf_vy": {"inf_speed_y"},
    "S.gravity": {"gravity"},
    "b.label": {"label"}, "b.density": {"density"}, "b.bounce": {"bounce"}, "b.special_segment": {"special_segment_no"},
    "b.holder_vx": {"speed_x"}, "b.holder_vy": {"speed_y"}, "b.holder_vo": {"speed_o"}, "b.holder_mo": {"force_o"},
    "b.holder_pos": {"holder_position", "moi_axis"}, "b.delta_pos": {"delta_position", "moi_axis"}, "b.speed": {"speed_slae"},
    "b.collision_min": {"collision_min"}, "b.collision_max": {"collision_max"}, "b.spring_const": {"spring_const"}, "b.spring_damping": {"spring_damping"},
    "b.slip": {"slip", "general_slip"}, "c.slip": {"slip", "general_slip"}, "p1.slip": {"slip", "general_slip"}, "p2.slip": {"slip", "general_slip"}, "b.root": {"root_body"},
}


def run(ctx):
    t = sim.Tools()
    b = core.build_repo("asan", targets=("vvflow",))
    exe = core.binary(b, "vvflow")
    lua = os.path.join(core.VERIF, "harness", "c13.lua")
    n = 16
    jobs = range(n) if ctx.replay_only is None else [0]

    def one(i):
        cwd = os.path.join(ctx.scratch, "s%d" % i)
        os.makedirs(cwd)
        rc, out, err = ctx.call([exe, lua, str(i), str(n), "3" if ctx.thorough else "2", ctx.replay_only or ""], cwd, timeout=3000 if ctx.thorough else 700)
        done, pairs = False, []
        for l in out.decode("latin-1").splitlines():
            f = l.split("\t")
            if f[0] == "V":
                ctx.violation("%s@%s" % (f[1], f[2]), f[3], {"case": f[2]})
            elif f[0] == "P":
                pairs.append(f[1:])
            elif f[0] == "E":
                done = True
                with ctx.lock:
                    ctx.evaluations += int(f[1])
                    ctx.nontrivial += int(f[2])
                    ctx.extra["properties_by_values"] = "%s x %s" % (f[3], f[4])
        if rc == "timeout" and os.path.exists(cwd + "/cur") and time.time() - os.path.getmtime(cwd + "/cur") < 60:
            # it was still going on: too much for this machine, not a hang
            ctx.exhaustive = False
            ctx.extra.setdefault("capped", []).append("shard %d stopped by its time cap" % i)
        elif not done:
            cur = open(cwd + "/cur").read() if os.path.exists(cwd + "/cur") else ""
            e = err.decode(errors="replace")
            m = [x for x in e.splitlines() if "ERROR: AddressSanitizer" in x or " in " in x and "/repo" in x][:3] or e.splitlines()[-3:]
            ctx.violation("crash@" + cur, "rc=%s: %s" % (rc, " | ".join(m)[:600]), {"case": cur})
            ctx.exhaustive = False
        data = t.read(ctx, [cwd + "/start.h5"] + ["%s/%s.h5" % (cwd, p[0]) for p in pairs])
        for name, prop, case in pairs:
            filecheck(ctx, data[cwd + "/start.h5"], data["%s/%s.h5" % (cwd, name)], prop, case)

    core.pmap(one, jobs)
    ctx.sample("b.special_segment = number 1.5: refused, nothing changed")
    ctx.sample("S.dt = string '1/3': reads back 1/3, only attribute dt of the saved file changed")
    ctx.rule = RULE


def filecheck(ctx, a, b, prop, case):
    """only what belongs to the property differs between the saved files"""
    if "error" in a or "error" in b:
        return ctx.violation("file@" + case, "unreadable", {"case": case})
    diff = []
    for k in sorted(set(a["attrs"]) | set(b["attrs"])):
        if not same(a["attrs"].get(k), b["attrs"].get(k)):
            diff.append(("S", k))
    for s in sorted(set(a["sets"]) | set(b["sets"])):
        x, y = a["sets"].get(s), b["sets"].get(s)
        if x is None or y is None:
            diff.append((s, "exists"))
            continue
        for k in sorted(set(x["attrs"]) | set(y["attrs"])):
            if not same(x["attrs"].get(k), y["attrs"].get(k)):
                diff.append((s, k))
        if not same(x["rows"], y["rows"]):
            diff.append((s, "rows"))
    base = re.match(r"[A-Za-z]+\d?\.[a-z_]+", prop).group(0) if prop else None
    for s, k in diff:
        if k in sim.INCIDENTAL or k == "time_local":
            continue
        ok = False
        if prop:
            owner = {"S": "S"}.get(s, s)
            if base in ATTR and k in ATTR[base]:
                ok = owner == "S" if base.startswith("S.") else owner.startswith("body")
            elif base and base.startswith("o."):
                ok = s == "vort" and k == "rows"
            elif base and base.endswith(".slip"):
                ok = s.startswith("body") and k == "rows"
            elif base and base.startswith("gone."):
                ok = False
        if not ok:
            ctx.violation("file@" + case, "%s of %s in the saved file changed" % (k, s), {"case": case})
            return


def same(x, y):
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return x == y
