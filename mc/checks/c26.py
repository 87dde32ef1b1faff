import os
import shutil
import struct

from mc import core, sim

RULE = ("Problems of both file formats and bodies from text are written by writers of the check's own and loaded by the real code under "
        "AddressSanitizer; the loaded Space is compared field by field with what a reference reader finds in the bytes. Legacy files: the "
        "variations of the header, lists, bodies, segments and order of sections, alone and in pairs, the file cut at every byte, and every "
        "byte replaced by the values of the tables. HDF5 files: cut at every length of the table, every "
        "dataset with every rank, size and type, every attribute absent, with no, several or one value of every type, foreign objects and "
        "files of other content. Text: every sequence of the lines of the table. Accepted files have to give exactly their content; the "
        "others an exception that leaves no handle open and the next load and save intact. Through vvflow: every bad file of the table, "
        "with pcall, in sequences in one process with few file handles, as the argument of vvflow and vvplot. Non-trivial: every file loaded.")

BASE = ('S.caption="good"; S.re=10; S.dt="1/10"; S.finish=0.2; S.inf_vx="1"; S.vort_list:append({1,1,1}); '
        'S.streak_source_list:append({1,3,1}); local b=gen_cylinder{R=0.5,N=12}; b.label="cyl"; S.body_list:insert(b);')


def legacy(d):
    """A legacy file with a header and one vortex"""
    h = b"v: 1.3  " + b"old".ljust(64, b"\0") + b"".join(struct.pack("<iI", a, b) for a, b in ((0, 1), (1, 10), (1, 5), (0, 1), (0, 1)))
    h += struct.pack("<ddddi", 100, 1, 0, 0, 0) + struct.pack("<i", 0) + struct.pack("<dddd", 0, 0, 0, 7) + struct.pack("<q", 1)
    v = struct.pack("<qddd", 1, 1, 2, 3)
    table = struct.pack("<q", 1024) + b"Header  " + struct.pack("<q", 1024 + len(h)) + b"Vortexes"
    return table.ljust(1024, b"\0") + h + v


def bad_files(d, base, record):
    leg = legacy(d)
    good = open(base, "rb").read()
    files = {
        "text": b"hello\n", "text-long": b"0 0 0\n" * 1000, "zeros": b"\0" * 5000, "ones": b"\xff" * 5000, "newline": b"\n",
        "script": b"simulate()\n" * 10, "signature": good[:8], "legacy-cut-table": leg[:1000], "legacy-cut-header": leg[:1100],
        "legacy-cut-list": leg[:-1], "legacy-version": leg.replace(b"v: 1.3", b"v: 1.4"), "legacy-section": leg.replace(b"Vortexes", b"Vortices"),
        "legacy-no-header": b"\0" * 16 + leg[16:], "legacy-size": leg[:-32] + struct.pack("<q", -1) + leg[-24:],
        "legacy-size-big": leg[:-32] + struct.pack("<q", 1 << 60) + leg[-24:],
        "hdf5-cut-half": good[:len(good) // 2], "hdf5-cut-last": good[:-8], "hdf5-cut-2000": good[:2000], "record": open(record, "rb").read(),
    }
    for k, v in files.items():
        with open(os.path.join(d, k + ".bad"), "wb") as f:
            f.write(v)
    os.mkdir(os.path.join(d, "directory.bad"))
    with open(os.path.join(d, "old.vvd"), "wb") as f:
        f.write(leg)
    return sorted(files) + ["directory", "missing"]


def through_tools(ctx):
    t = sim.Tools()
    d = os.path.join(ctx.scratch, "tools")
    rc, err = t.flow(ctx, d, BASE + 'S:save("base.h5"); S:load("base.h5"); S:save("base2.h5"); simulate()')
    if rc:
        return ctx.violation("tools:base", "%s %s" % (rc, err[-300:]))
    names = bad_files(d, d + "/base.h5", d + "/stepdata_good.h5")
    want = t.read(ctx, [d + "/base2.h5"])[d + "/base2.h5"]
    # one process, one refusal, then a good file
    jobs = [(n,) for n in names] + [(a, b) for a in names for b in names]
    if ctx.thorough:
        jobs += [(a, b, c) for a in names for b in names for c in names]
    for i in range(0, len(jobs), 50):
        part = jobs[i:i + 50]
        lua = ["local bad=0"]
        for j, seq in enumerate(part):
            for n in seq:
                lua.append('do local ok,e=pcall(S.load,S,"%s.bad"); if ok or type(e)~="string" or #e==0 then io.stderr:write("REFUSE %s\\n") end end' % (n, n))
            lua.append('do local ok,e=pcall(S.load,S,"base.h5"); if not ok then io.stderr:write("AFTER %s "..tostring(e).."\\n") end end; S:save("o%d.h5")' % ("-".join(seq), j))
        ctx.evaluations += len(part)
        ctx.nontrivial += len(part)
        rc, err = t.flow(ctx, d, "\n".join(lua), timeout=120)
        for l in err.splitlines():
            if l.startswith(("REFUSE", "AFTER")):
                ctx.violation("tools:script:" + l.split()[1] + ":" + l.split()[0].lower(), l)
        if rc:
            ctx.violation("tools:script:%s" % "-".join(part[0]), "exit %s %s" % (rc, err[-300:]))
            continue
        outs = t.read(ctx, [d + "/o%d.h5" % j for j in range(len(part))])
        for j, seq in enumerate(part):
            diff = sim.compare(want, outs[d + "/o%d.h5" % j], 0, sim.INCIDENTAL)
            ctx.check(diff is None, "tools:after:" + "-".join(seq), "base.h5 saved after the refusals: %s" % diff)
    # many refusals with few handles
    lua = "for i=1,300 do for _,n in ipairs{%s} do local ok,e=pcall(S.load,S,n..'.bad'); if ok then os.exit(3) end end end S:load('base.h5'); S:load('old.vvd'); S:load('base.h5'); S:save('many.h5')" % ",".join('"%s"' % n for n in names)
    with open(d + "/many.lua", "w") as f:
        f.write(lua)
    rc, out, err = ctx.call(["sh", "-c", "ulimit -n 24; exec %s many.lua" % t.vvflow], d, timeout=120)
    ctx.evaluations += 300 * len(names)
    ctx.check(rc == 0, "tools:handles", "300 refusals of every file, 24 handles: exit %s %s" % (rc, err.decode(errors="replace")[-300:]))
    if rc == 0:
        diff = sim.compare(want, t.read(ctx, [d + "/many.h5"])[d + "/many.h5"], 0, sim.INCIDENTAL)
        ctx.check(diff is None, "tools:handles", "saved after the refusals: %s" % diff)
    # as arguments
    def arg(n):
        for tool, cmd in (("vvflow", [t.vvflow, n + ".bad"]), ("vvplot", [t.vvplot, n + ".bad", n + ".png"])):
            if tool == "vvflow" and n in ("newline",):
                continue  # an empty script
            e = os.path.join(d, "arg_%s_%s" % (tool, n))
            os.mkdir(e)
            src = os.path.join(d, n + ".bad")
            if os.path.isdir(src):
                os.mkdir(os.path.join(e, n + ".bad"))
            elif os.path.exists(src):
                shutil.copy(src, e)
            before = set(os.listdir(e))
            if tool == "vvflow" and n == "script":
                continue  # is one
            rc, out, err = ctx.call(cmd, e, timeout=60)
            with ctx.lock:
                ctx.evaluations += 1
                ctx.nontrivial += 1
            new = set(os.listdir(e)) - before
            ctx.check(isinstance(rc, int) and 0 < rc < 128, "tools:%s:%s" % (tool, n), "exit %s, %s" % (rc, (out + err).decode(errors="replace")[-200:]))
            ctx.check(tool == "vvplot" or not new, "tools:%s:%s" % (tool, n), "the refused file left %s" % sorted(new))
    core.pmap(arg, names)
    shutil.rmtree(d)


def run(ctx):
    if ctx.replay_only is None or ctx.replay_only.startswith("tools:"):
        through_tools(ctx)
    if ctx.replay_only is None or not ctx.replay_only.startswith("tools:"):
        exe = core.build_harness("c26", "asan", libs=["-lhdf5_serial"])
        ctx.run_harness(exe, timeout=700 if not ctx.thorough else 3000)
    ctx.rule = RULE
