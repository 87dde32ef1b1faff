import itertools
import math
import os
import re
import shutil

from mc import core, sim

RULE = ("Files: snapshots with every combination of list sizes 0..2, 0..3 bodies with all labels, roots and slip patterns of the tables, "
        "values at the limits of every type, 12 and 105 bodies, lists beyond a chunk; step records with 0..2 bodies, with and without "
        "profiles, after 0..n steps and a resume to fewer bodies; a file with datasets of all shapes and types; files that are not "
        "HDF5, and every truncation of one to a multiple of 512 bytes. On each: the listing, the information, every selection of one "
        "and two datasets and (small files) three, repeated and in every order, and with a wrong name in every place. What vvxtract "
        "(built with the address sanitizer) prints is parsed and compared with the file as read by the HDF5 library directly. "
        "Non-trivial: tables with values.")

LABELS = ["", "b", "long label of a body, beyond any small buffer", "%d%s%n", "body01", "it's", "x = 1"]


def script():
    """(lines, [file])"""
    L, files = [], []

    def save(name):
        L.append('S:save("%s.h5")' % name)
        files.append(name + ".h5")

    def clear():
        L.append('S.body_list:clear(); S.vort_list:clear(); S.sink_list:clear(); S.streak_source_list:clear(); S.streak_domain_list:clear()')

    lists = ("vort_list", "sink_list", "streak_source_list", "streak_domain_list")
    for n in itertools.product(range(3), repeat=4):
        if len(set(n)) == 1 and n[0] or sum(n) <= 3:
            clear()
            L.append('S.caption="lists %d%d%d%d"' % n)
            for k, (l, m) in enumerate(zip(lists, n)):
                for i in range(m):
                    L.append("S.%s:append({%g,%g,%g})" % (l, k + 0.1, i - 0.5, 1.5 ** k * (-1) ** i))
            save("lists%d%d%d%d" % n)
    clear()
    # values of the space
    for i, t in enumerate(["S.caption=''", "S.caption='%s %d %n \"q\" \\\\'", "S.re=1/3; S.inf_g=-1e-300", "S.re=inf; S.inf_g=1e300; S.finish=1/3", "S.finish=-7e22",
                           "S.inf_vx='sin(t)^2'; S.inf_vy=[[-t*1e-3+(t>1 and 2 or 3)]]", "S.gravity={-9.80665,1e-9}", "S.gravity={nan,-inf}",
                           "S.time='-2147483648/1'; S.dt='2147483647/4294967295'", "S.time='5/4294967295'", "S.dt='-1/3'; S.dt_save='-2/7'; S.dt_streak='-3/11'; S.dt_profile='-4/13'", "S.dt='1/3'; S.dt_save='2/7'; S.dt_streak='3/11'; S.dt_profile='4/13'",
                           "S.caption=string.rep('long ',100)"]):
        L.append(t)
        save("space%d" % i)
    L.append("S.inf_vx='' S.inf_vy=''")
    L.append("bodies = {gen_cylinder{R=0.5,N=5}, gen_plate{R1=0.2,R2=0.1,L=1,N=20}, gen_ellipse{Rx=1,Ry=0.5,N=40}}; bodies[2]:move_r({3,1}); bodies[3]:move_r({-4,0}); bodies[3]:move_d(30)")
    # labels and roots of up to three bodies
    case = 0
    for nb in (1, 2, 3):
        roots = [r for r in itertools.product(range(nb + 1), repeat=nb)]
        for r in roots:
            case += 1
            clear()
            for b in range(nb):
                L.append("bodies[%d].label=%s; bodies[%d].root=nil; S.body_list:insert(bodies[%d])" % (b + 1, lua(LABELS[(case * 3 + b * (1 + case % 5)) % len(LABELS)]), b + 1, b + 1))
            for b in range(nb):
                if r[b]:
                    L.append("bodies[%d].root=bodies[%d]" % (b + 1, r[b]))
            save("roots%d_%s" % (nb, "".join(map(str, r))))
    clear()
    L.append("for i=1,3 do bodies[i].root=nil; bodies[i].label='' end")
    L.append("b=bodies[3]; b.label='v'; S.body_list:insert(b)")
    for i, t in enumerate(["b.slip=true", "b.slip=false", "b.density=0.001; b.bounce=1/3; b.special_segment=-5", "b.special_segment=2147483647; b.density=inf",
                           "b.holder_pos={1e-9,-1/3,100}; b.delta_pos={0.1,0.2,-0.3}", "b.holder_vx='1+t'; b.holder_vy=\"-t\"; b.holder_vo='t^2'; b.holder_mo='4*t'",
                           "b.speed={1/3,-2e10,nan}", "b.spring_const={0,1e-5,7}; b.spring_damping={1,2,1e6}", "b.collision_min={-1,nan,-inf}; b.collision_max={1,nan,inf}",
                           "b.collision_min={nan,-1/3,0.1}; b.collision_max={nan,2/3,0.2}"]):
        L.append(t)
        save("body%d" % i)
    # slip of a part of the surface
    for i in range(8):
        clear()
        L.append("f=io.open('corners','w'); %s f:close(); b=load_body('corners'); S.body_list:insert(b)" %
                 " ".join("f:write('%g\\t%g\\t%d\\n');" % (p[0], p[1], (i >> k) & 1) for k, p in enumerate([(0, 0), (1, 2), (2, 0)])))
        save("slip%d" % i)
    clear()
    L.append("for i=1,12 do local b=gen_cylinder{R=0.1,N=4+i}; b:move_r({i,0}); b.density=i; if i%3==0 then b.root=S.body_list[i-1] end; S.body_list:insert(b) end")
    save("twelve")
    clear()
    L.append("for i=1,105 do local b=gen_cylinder{R=0.1,N=3+i%7}; b:move_r({i,0}); b.density=i; if i>1 then b.root=S.body_list[i-1] end; S.body_list:insert(b) end")
    save("hundred")
    clear()
    L.append("S.body_list:insert(gen_cylinder{R=1,N=700}); S.time=0; for i=1,1300 do S.vort_list:append({i,-i/3,1/i}) end; for i=1,513 do S.sink_list:append({-i,i,i}) end")
    save("large")
    clear()
    # step records
    L.append("S.re=100; S.time='0/1'; S.dt='1/10'; S.dt_save='0/1'; S.inf_vx='1'; S.gravity={0,0}; S.inf_g=0; S:save('plain.h5')")
    recs = []
    for nb in range(3):
        for n in (-2, 0, 3):
            L.append("S:load('plain.h5'); S.caption='r%d%d'; S.finish=%g" % (nb, n + 2, n / 10))
            for b in range(nb):
                L.append("local b=gen_cylinder{R=0.5,N=%d}; b:move_r({%d,0}); S.body_list:insert(b)" % (6 + 2 * b, 3 * b))
            L.append("simulate()")
            recs.append("stepdata_r%d%d.h5" % (nb, n + 2))
    # a record whose later part has fewer bodies, and one resumed
    L.append("S:load('plain.h5'); S.caption='r25'; S.finish=0.1; S.body_list:insert(gen_cylinder{R=0.5,N=6}); simulate()")
    L.append("S.finish=0.5; S.caption='r15'; simulate()")
    return L, files, recs


def lua(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def run(ctx):
    t = sim.Tools()
    exe = core.binary(core.build_repo("asan", targets=("vvxtract",)), "vvxtract")
    h5make = core.build_harness("h5make", "plain", libs=["-lhdf5_serial"])
    d = os.path.join(ctx.scratch, "w")
    os.makedirs(d)
    lines, files, recs = script()
    rc, err = t.flow(ctx, d, "\n".join(lines), timeout=300)
    if rc != 0:
        raise core.CheckError("making the files: " + err[-2000:])
    dp = os.path.join(ctx.scratch, "p")
    rc, err = t.flow(ctx, dp, "\n".join(l for l in lines if not l.startswith("S:save") or "plain" in l), args=["--profile"], timeout=300)
    if rc != 0:
        raise core.CheckError("making the files with profiles: " + err[-2000:])
    # a body without segments, if it can be saved at all (C01 decides that)
    rc, err = t.flow(ctx, d, "S.body_list:insert(load_body('/dev/null')); S:save('emptybody.h5')")
    if rc == 0:
        files.append("emptybody.h5")
    rc, out, err = ctx.call([h5make, "shapes.h5"], d)
    if rc != 0:
        raise core.CheckError("h5make: " + err.decode()[-500:])
    paths = ["w/" + f for f in files + recs + ["shapes.h5"]] + ["p/" + f for f in recs]
    data = t.read(ctx, [os.path.join(ctx.scratch, p) for p in paths])
    jobs = []
    for p in paths:
        f = data[os.path.join(ctx.scratch, p)]
        if "error" in f:
            raise core.CheckError("reading %s: %s" % (p, f["error"]))
        jobs += cases(ctx, p, f)
    jobs += wrong(ctx)
    seen = set()
    jobs = [j for j in jobs if not (j[1] in seen or seen.add(j[1]))]
    if ctx.replay_only is not None:
        jobs = [j for j in jobs if key(j[1]) == ctx.replay_only]
    core.pmap(lambda j: one(ctx, exe, *j), jobs)
    ctx.rule = RULE


def key(args):
    return " ".join(a if re.fullmatch(r"[\w/.%-]+", a) else repr(a) for a in args)


def cases(ctx, path, f):
    """[(kind, arguments, file, selection)]"""
    jobs = [("info", (path,), f, None), ("info", ("-i", path), f, None), ("info", (path, "--info"), f, None), ("list", ("-l", path), f, None), ("list", ("--list", path), f, None)]
    ok = [s for s in f["sets"] if len(f["sets"][s]["dims"]) == 2 and not any(isinstance(v, str) for r in f["sets"][s]["rows"] for v in (r if isinstance(r, list) else [r]))]
    bad = [s for s in f["sets"] if s not in ok] + list(f["groups"])[:3] + ["nothing", "", ".", "vort ", "caption", "type", "vort/x"]
    bad = [s for s in bad if s not in ok]
    small = len(ok) <= 14 or ctx.thorough
    for s in ok:
        jobs.append(("table", (path, s), f, (s,)))
        jobs.append(("table", (path, "/" + s), f, (s,)))
    big = [s for s in ok if len(f["sets"][s]["rows"]) > 600 or f["sets"][s]["dims"][1] > 600]
    for a in ok:
        for b in (ok if small else ok[:6]):
            if a in big and b in big and a != b and not ctx.thorough:
                continue
            jobs.append(("table", (path, a, b), f, (a, b)))
    few = [s for s in ok if s not in big][:7 if ctx.thorough else 4]
    if "shapes" in path or "r25" in path or "lists1111" in path or ctx.thorough:
        for t in itertools.product(few, repeat=3):
            jobs.append(("table", (path,) + t, f, t))
    jobs.append(("table", (path,) + tuple(ok), f, tuple(ok)))
    jobs.append(("table", (path,) + tuple(ok[::-1]), f, tuple(ok[::-1])))
    for b in bad:
        jobs.append(("refuse", (path, b), f, None))
        for a in ok[:2]:
            jobs.append(("refuse", (path, a, b), f, None))
            jobs.append(("refuse", (path, b, a), f, None))
    # information or a listing win over datasets
    if ok:
        jobs.append(("info", ("-i", path, ok[0]), f, None))
        jobs.append(("list", ("-l", path, ok[0]), f, None))
        jobs.append(("list", ("-i", "-l", path), f, None))
    return jobs


def wrong(ctx):
    d = os.path.join(ctx.scratch, "w")
    jobs = [("refuse", a, None, None) for a in [(), ("w/missing.h5",), ("w",), ("-l", "w/missing.h5"), ("-i", "w"), ("--nonsense", "w/body0.h5"), ("-z",), ("w/missing.h5", "vort"), ("",)]]
    for name, text in (("void", b""), ("text", b"not a file of that kind\n" * 50), ("zeros", b"\0" * 4096)):
        with open(d + "/" + name, "wb") as f:
            f.write(text)
        jobs += [("refuse", a + ("w/" + name,), None, None) for a in ((), ("-l",), ("-i",))] + [("refuse", ("w/" + name, "vort"), None, None)]
    whole = open(d + "/lists1111.h5", "rb").read()
    for n in range(0, len(whole), 512):
        with open(d + "/cut%d" % n, "wb") as f:
            f.write(whole[:n])
        jobs += [("refuse", a, None, None) for a in (("w/cut%d" % n,), ("w/cut%d" % n, "vort"), ("-l", "w/cut%d" % n))]
    jobs += [("help", a, None, None) for a in (("-h",), ("--help",), ("-v",), ("--version",), ("-h", "w/missing.h5"))]
    return jobs


def one(ctx, exe, kind, args, f, sel):
    rc, out, err = ctx.call([exe] + [a.encode("latin-1") for a in args], ctx.scratch, timeout=60)
    out, err = out.decode("latin-1"), err.decode("latin-1", "replace")
    k = key(args)

    def bad(what, detail):
        ctx.violation("%s@%s" % (what, k), detail, {"case": k})
    with ctx.lock:
        ctx.evaluations += 1
    if "AddressSanitizer" in err:
        return bad("memory", " | ".join(l for l in err.splitlines() if "ERROR" in l or "/repo" in l)[:500])
    if kind == "refuse":
        if rc == 0 or rc == "timeout" or isinstance(rc, int) and rc < 0 and rc != -6:
            return bad("refused", "status %s" % rc)
        if not err.strip():
            return bad("message", "status %s without a word" % rc)
        if out.strip():
            return bad("refused", "prints %r along with the error" % out[:200])
        return
    if rc != 0:
        return bad("status", "status %s: %s" % (rc, err[-300:]))
    if kind == "help":
        if not out.strip():
            bad("help", "nothing printed")
    elif kind == "list":
        if sorted(out.splitlines()) != sorted(f["sets"]):
            bad("list", "%r instead of %r" % (sorted(out.splitlines()), sorted(f["sets"])))
    elif kind == "table":
        e = table(out, f, sel)
        if e:
            bad("table", e)
        if any(f["sets"][s]["rows"] for s in sel):
            with ctx.lock:
                ctx.nontrivial += 1
            if len(sel) == 2:
                ctx.sample("vvxtract %s: %d lines as in the file" % (k, len(out.splitlines())))
    elif kind == "info":
        for e in info(out, f)[:3]:
            bad("info", e)


def table(out, f, sel):
    lines = out.split("\n")
    if lines.pop() != "":
        return "last line is not ended"
    head, want = [], []
    for s, arg in zip(sel, sel):
        n = f["sets"][s]["dims"][1]
        want += [s] if n == 1 else ["%s[%d]" % (s, j + 1) for j in range(n)]
    if not lines or not lines[0].startswith("#"):
        return "no heading"
    head = [h.lstrip("/") for h in lines[0][1:].split("\t")]
    if head[-1:] == [""]:
        head.pop()
    if head != want:
        return "heading %r instead of %r" % (head[:8], want[:8])
    rows = max(f["sets"][s]["dims"][0] for s in sel)
    if len(lines) - 1 != rows:
        return "%d rows instead of %d" % (len(lines) - 1, rows)
    for i in range(rows):
        cells = lines[i + 1].split("\t")
        if cells[-1].strip() == "":
            cells.pop() if len(cells) > len(want) else None
        exp = []
        for s in sel:
            n = f["sets"][s]["dims"][1]
            r = f["sets"][s]["rows"]
            if i < f["sets"][s]["dims"][0] and n:
                exp += r[i] if isinstance(r[i], list) else [r[i]]
            else:
                exp += [None] * n
        if len(cells) != len(exp):
            return "row %d has %d columns instead of %d" % (i, len(cells), len(exp))
        for j, (c, e) in enumerate(zip(cells, exp)):
            if e is None:
                if c.strip():
                    return "row %d column %d: %r beyond the end" % (i, j, c)
            elif not shown(c, e, 6e-7):
                return "row %d column %s: %r instead of %.17g" % (i, want[j], c, e)
    return None


def shown(c, e, rel, ab=0.0):
    try:
        v = float(c)
    except ValueError:
        return False
    if math.isnan(e) or math.isnan(v):
        return math.isnan(e) and math.isnan(v)
    if math.isinf(e) or math.isinf(v):
        return e == v or abs(v if math.isinf(e) else e) > 1.7e308
    return abs(v - e) <= rel * abs(e) + ab + 5e-324


SPACE = [("S.re", "n", "re"), ("S.inf_g", "n", "inf_circulation"), ("S.inf_vx", "s", "inf_speed_x"), ("S.inf_vy", "s", "inf_speed_y"), ("S.gravity", "v", "gravity"), ("S.time", "t", "time"),
         ("S.dt", "t", "dt"), ("S.dt_save", "t", "dt_save"), ("S.dt_streak", "t", "dt_streak"), ("S.dt_profile", "t", "dt_profile"), ("S.finish", "n", "time_to_finish")]
COUNTS = [("S.body_list", None), ("S.vort_list", "vort"), ("S.sink_list", "source"), ("S.streak_source_list", "ink_source"), ("S.streak_domain_list", "ink")]
BODY = [("label", "s", "label"), ("density", "n", "density"), ("holder_pos", "a", "holder_position"), ("holder_vx", "s", "speed_x"), ("holder_vy", "s", "speed_y"), ("holder_vo", "s", "speed_o"), ("holder_mo", "s", "force_o"),
        ("speed", "v", "speed_slae"), ("delta_pos", "a", "delta_position"), ("spring_const", "v", "spring_const"), ("spring_damping", "v", "spring_damping"), ("collision_min", "a", "collision_min"),
        ("collision_max", "a", "collision_max"), ("bounce", "n", "bounce"), ("special_segment", "n", "special_segment_no")]


def value(kind, text, e):
    """does the text show the value?"""
    R = 6e-6
    if kind == "s":
        return text == "'%s'" % (e or "")
    if kind == "n":
        return shown(text, e, R)
    if kind == "t":
        m = re.match(r"'(-?\d+)/(\d+)'(?: -- (\S+))?$", text)
        return bool(m) and int(m.group(1)) == e[0] and int(m.group(2)) == e[1] and (m.group(3) is None or shown(m.group(3), e[0] / e[1], R))
    m = re.match(r"\{([^{}]*)\}(?: -- \.d = (\S+))?$", text)
    if not m:
        return False
    v = m.group(1).split(",")
    if len(v) != len(e) or not all(shown(x, y, R) for x, y in zip(v, e)):
        return False
    return kind == "v" or m.group(2) is not None and shown(m.group(2), e[2] * 180 / math.pi, R)


def info(out, f):
    A, errors = f["attrs"], []
    lines = out.split("\n")
    pos = [0]

    def need(prefix, ok, what):
        """the line with this beginning, once, and its rest satisfies ok"""
        m = [l for l in block if l.startswith(prefix)]
        if len(m) != 1:
            errors.append("%s: %d lines" % (what, len(m)))
        elif not ok(m[0][len(prefix):]):
            errors.append("%s: %r in the file is shown as %r" % (what, expected[0], m[0]))
        used.update(m)

    expected, used = [None], set()
    bodies = sorted((s for s in f["sets"] if re.fullmatch(r"body\d+", s)), key=lambda s: int(s[4:]))
    starts = [i for i, l in enumerate(lines) if re.match(r"-- body\d+ \(", l)]
    block = lines[:starts[0]] if starts and "dt" in A else lines
    for p, a in (("caption: ", "caption"), ("created: ", "time_local"), ("version: ", "git_info"), ("git_rev: ", "git_rev")):
        expected[0] = A.get(a, "")
        need(p, lambda x: x == A.get(a, ""), a)
    if A.get("git_diff"):
        expected[0] = A["git_diff"]
        if "git_diff: " + A["git_diff"] not in out:
            errors.append("git_diff")
        used.update(l for l in block if l.startswith("git_diff: ") or l in A["git_diff"].split("\n"))
    if "dt" not in A:
        rest = [l for l in block if l.strip() and l not in used]
        if rest:
            errors.append("unexpected %r" % rest[0])
        return errors
    for n, k, a in SPACE:
        e = A.get(a, "" if k == "s" else 0)
        expected[0] = e
        need(n + " = ", lambda x: value(k, x, e), n)
    for n, s in COUNTS:
        e = len(bodies) if s is None else f["sets"].get(s, {"rows": []})["rows"]
        e = e if isinstance(e, int) else len(e)
        expected[0] = e
        need("-- #%s = " % n, lambda x: x.split(" ")[0] == str(e), "#" + n)
    rest = [l for l in block if l.strip() and l not in used and l != "-- space"]
    if rest:
        errors.append("unexpected %r" % rest[0])
    if len(starts) != len(bodies):
        return errors + ["%d bodies instead of %d" % (len(starts), len(bodies))]
    for i, b in enumerate(bodies):
        d = f["sets"][b]
        B = d["attrs"]
        block = lines[starts[i]:(starts + [len(lines)])[i + 1]]
        used = set()
        label = B.get("label", "")
        name = label or b
        expected[0] = label
        need("-- %s " % b, lambda x: x == "(%s)" % label, b)
        for n, k, a in BODY:
            e = B.get(a, "" if k == "s" else 0)
            expected[0] = e
            need("%s.%s = " % (name, n), lambda x: value(k, x, e), b + "." + n)
        slip = B["slip"] if "slip" in B else [B.get("general_slip")]
        if not isinstance(slip, list):
            slip = [slip]
        e = "nil" if len(set(slip)) != 1 or not d["rows"] else "true" if slip[0] else "false"
        expected[0] = slip
        need(name + ".slip = ", lambda x: not d["rows"] or x.split(" ")[0] == e, b + ".slip")
        root = B.get("root_body", "")
        rname = (f["sets"][root]["attrs"].get("label", "") or root) if root in f["sets"] else "nil"
        expected[0] = rname
        need(name + ".root = ", lambda x: x == rname, b + ".root")
        expected[0] = len(d["rows"])
        need("-- #%s = " % name, lambda x: x.split(" ")[0] == str(len(d["rows"])), "#" + b)
        h, q, size = B["holder_position"], B["delta_position"], 1.0
        pts = d["rows"]
        slen = sum(math.hypot(pts[j - 1][0] - pts[j][0], pts[j - 1][1] - pts[j][1]) for j in range(len(pts)))
        scale = max([1.0] + [abs(x) for p in pts for x in p[:2]] + [abs(x) for x in h[:2] + q[:2]])

        def near(text, es, vec):
            t = text.split(" -- ")[0].strip()
            t = t[1:-1].split(",") if vec else [t]
            return len(t) == len(es) and all(shown(x, y, 1e-5, 1e-11 * scale ** 4) for x, y in zip(t, es))
        for n, es, vec in (("get_axis", [h[0] + q[0], h[1] + q[1]], True), ("get_cofm", B["cofm"], True), ("get_slen", [slen], False), ("get_area", [B["area"]], False),
                           ("get_moi_cofm", [B["moi_cofm"]], False), ("get_moi_axis", [B["moi_axis"]], False)):
            if not pts and n != "get_axis":
                es = None
            expected[0] = es
            need("-- %s.%s() = " % (name, n), lambda x: es is None or near(x, es, vec), b + "." + n)
        rest = [l for l in block if l.strip() and l not in used]
        if rest:
            errors.append("unexpected %r" % rest[0])
    return errors
