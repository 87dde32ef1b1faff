import itertools
import os
import re

from mc import core

RULE = ("Every command line of up to two options (one of the two in its first spelling; in the thorough tier up to three, and any two spellings) and all sets of different options in one order, from the table below, "
        "with every spelling (long, with =, abbreviated, short, joined), repetitions included, is given to gpquick with a stand-in for gnuplot "
        "which keeps the script and the data it is given. The script, read as gnuplot commands, has exactly the size, output, ranges, ratio, grid, columns "
        "and style asked for, the last of repeated options counting; it is printed when asked for or when there is no output, and only given to gnuplot "
        "when there is an output, with the data unchanged and gnuplot's status passed on. Mistakes are refused with a message and a status, and nothing is drawn. "
        "Non-trivial: at least one option.")

# option: [(value, [spellings])]
TABLE = {
    "lines": [(True, [["-l"], ["--lines"], ["--li"]])],
    "points": [(True, [["-p"], ["--points"], ["--p"]])],
    "both": [(True, [["-lp"], ["-pl"]])],
    "square": [(True, [["--square"], ["--sq"]])],
    "dump": [(True, [["--dump-script"], ["--dump"]])],
    "using": [("1:3", [["-u", "1:3"], ["-u1:3"], ["--using", "1:3"], ["--using=1:3"], ["--us", "1:3"]]), ("2:1", [["-u", "2:1"]]), ("1:($2*2)", [["-u", "1:($2*2)"]]), ("4:5", [["--using=4:5"]])],
    "x": [((-0.5, 0.5), [["-x", "-0.5", "0.5"]]), ((2., 10.), [["-x", "2", "10"]]), ((1e-7, 123456.789), [["-x", "1e-7", "123456.789"]]), ((3., -3.), [["-x", "3", "-3"]])],
    "y": [((-0.5, 0.5), [["-y", "-0.5", "0.5"]]), ((0., 1.5e6), [["-y", "0", "1.5e6"]]), ((0.1234567890123, 7.), [["-y", "0.1234567890123", "7"]])],
    "grid": [("x", [["--grid", "x"], ["--grid=x"]]), ("y", [["--grid", "y"], ["--gr", "y"]]), ("xy", [["--grid", "xy"]])],
    "size": [((480, 360), [["--size", "480", "360"], ["--si", "480", "360"]]), ((1, 2000), [["--size", "1", "2000"]])],
    "output": [("a.png", [["-o", "a.png"], ["-oa.png"], ["--output", "a.png"], ["--output=a.png"], ["--out", "a.png"]]), ("b {}{0} c%d.png", [["-o", "b {}{0} c%d.png"]])],
}
WRONG = [["--grid", "z"], ["--grid"], ["--size", "5"], ["--size", "5", "x"], ["-x", "1"], ["-x", "a", "b"], ["-y", "1", "b"], ["-u"], ["-o"], ["--nothing"], ["-q"], ["operand"], ["--s"], ["--lines=1"], ["--size", "1.5", "2"]]
DATA = "#time\tforce\n" + "".join("%d\t%g\t%g\n" % (i, i * i / 7., -i) for i in range(400))

FAKE = '''#!/bin/sh
# stands in for gnuplot: keeps the script and the data
[ "$1" = -e ] || exit 9
printf %s "$2" > "$PLOTDIR/script.$$"
cat > "$PLOTDIR/data.$$"
mv "$PLOTDIR/script.$$" "$PLOTDIR/script"; mv "$PLOTDIR/data.$$" "$PLOTDIR/data"
exit $PLOTRC
'''


def tokens():
    return [(o, v, s) for o, vs in TABLE.items() for v, ss in vs for s in ss]


def meaning(seq):
    m = {"lines": False, "points": False, "square": False, "dump": False, "using": "1:2", "x": None, "y": None, "grid": "", "size": (640, 480), "output": None}
    for o, v, s in seq:
        if o == "both":
            m["lines"] = m["points"] = True
        else:
            m[o] = v
    return m


def commands(script):
    """gnuplot commands: separated by ; or newlines outside of quotes"""
    res, cur, quote = [], "", None
    for c in script:
        if quote:
            quote = None if c == quote else quote
        elif c in "'\"":
            quote = c
        elif c in ";\n":
            res.append(cur.strip())
            cur = ""
            continue
        cur += c
    res.append(cur.strip())
    return [c for c in res if c]


def read(script):
    """what a script asks for"""
    r = {"lines": None, "points": None, "square": False, "using": None, "x": None, "y": None, "grid": set(), "size": None, "output": None, "png": False, "key": True, "over": False}
    for c in commands(script):
        w = c.split(None, 2)
        if r["over"]:
            raise ValueError("%r after the end" % c)
        if c.startswith("set terminal"):
            r["png"] = w[2].split()[0] in ("png", "pngcairo")
            m = re.search(r"\bsize\s+(\d+)\s*,\s*(\d+)", c)
            r["size"] = m and (int(m.group(1)), int(m.group(2)))
        elif c.startswith("set output"):
            r["output"] = w[2][1:-1]
        elif c in ("unset key", "set key off", "set nokey"):
            r["key"] = False
        elif c.startswith("set size"):
            if not re.fullmatch(r"set size ratio\s+-1(\.0*)?", c):
                raise ValueError(c)
            r["square"] = True
        elif re.match(r"set [xy]range", c):
            m = re.fullmatch(r"set ([xy])range\s*\[\s*(\S+?)\s*:\s*(\S+?)\s*\]", c)
            r[m.group(1)] = (float(m.group(2)), float(m.group(3)))
        elif c.startswith("set grid"):
            # which of the two sets of lines an x means is not judged
            r["grid"] |= set(c.split()[2:]) or {"xtics", "ytics"}
        elif c.startswith("plot"):
            if r["using"]:
                raise ValueError("two plots")
            m = re.fullmatch(r"plot\s+(['\"])-\1\s+using\s+(\S+)\s+with\s+(\w+)(.*)", c)
            if not m:
                raise ValueError(c)
            r["using"] = m.group(2)
            style, rest = m.group(3), m.group(4)
            lt = re.search(r"\b(?:lt|linetype)\s+(-?\d+)", rest)
            pt = re.search(r"\b(?:pt|pointtype)\s+(-?\d+)", rest)
            r["lines"] = style in ("lines", "l") or style in ("linespoints", "lp") and not (lt and lt.group(1) == "0")
            r["points"] = style in ("points", "p") or style in ("linespoints", "lp") and not (pt and pt.group(1) == "0")
        elif c in ("exit", "quit"):
            r["over"] = True
        else:
            raise ValueError("unexpected command %r" % c)
    return r


def judge(script, m):
    try:
        r = read(script)
    except (ValueError, AttributeError, IndexError) as e:
        return "the script is not understood: %s" % e
    want = {"png": True, "key": False, "size": m["size"], "output": m["output"], "square": m["square"], "x": m["x"], "y": m["y"], "using": m["using"],
            "points": m["points"], "lines": m["lines"] or not m["points"]}
    for k, v in want.items():
        if r[k] != v:
            return "%s is %r instead of %r" % (k, r[k], v)
    if len(r["grid"]) != len(m["grid"]) or r["grid"] - {"xtics", "ytics"}:
        return "grid is %r for %r" % (sorted(r["grid"]), m["grid"])
    return None


def cases(thorough):
    tk = tokens()
    yield ()
    for t in tk:
        yield (t,)
    short = [(o, v, ss[0]) for o, vs in TABLE.items() for v, ss in vs]
    for a, b in itertools.product(tk, tk):
        if thorough or (a in short) or (b in short):
            yield (a, b)
    if thorough:
        for seq in itertools.product(short, repeat=3):
            yield seq
    # every set of different options, one value each in turn
    names = [n for n in TABLE if n != "both"]
    for mask in range(1 << len(names)):
        chosen = [n for i, n in enumerate(names) if mask >> i & 1]
        if len(chosen) < 3:
            continue
        yield tuple((n, TABLE[n][mask % len(TABLE[n])][0], TABLE[n][mask % len(TABLE[n])][1][0]) for n in (chosen if mask % 2 else chosen[::-1]))


def run(ctx):
    tool = os.path.join(core.REPO, "utils/scripts/gpquick")
    jobs = []
    for n, seq in enumerate(cases(ctx.thorough)):
        for rc in ((0, 3) if n % 16 == 0 and any(o == "output" for o, v, s in seq) else (0,)):
            jobs.append((" ".join(sum((s for o, v, s in seq), [])) + (" -> %d" % rc if rc else ""), seq, rc, None))
    for w in WRONG:
        for extra in ([], ["-o", "a.png"], ["--dump-script"]):
            jobs.append((" ".join(extra + w), None, 0, extra + w))
            jobs.append((" ".join(w + extra) + " ", None, 0, w + extra))
    if ctx.replay_only is not None:
        jobs = [j for j in jobs if j[0] == ctx.replay_only]
    fake = os.path.join(ctx.scratch, "bin")
    os.makedirs(fake)
    with open(fake + "/gnuplot", "w") as f:
        f.write(FAKE)
    os.chmod(fake + "/gnuplot", 0o755)

    def one(nj):
        n, (name, seq, rc, wrong) = nj
        d = os.path.join(ctx.scratch, "p%d" % n)
        os.makedirs(d)
        args = wrong if wrong is not None else sum((s for o, v, s in seq), [])
        env = dict(os.environ, PATH=fake + ":" + os.environ["PATH"], PLOTDIR=d, PLOTRC=str(rc))
        with open(d + "/in", "w") as f:
            f.write(DATA)
        status, out, err = ctx.call(["sh", "-c", 'exec "$@" < in', "sh", "python3", "-B", tool] + args, d, timeout=20, env=env)
        out, err = out.decode(errors="replace"), err.decode(errors="replace")
        given = open(d + "/script").read() if os.path.exists(d + "/script") else None
        data = open(d + "/data").read() if os.path.exists(d + "/data") else None
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
        with ctx.lock:
            ctx.evaluations += 1
            ctx.nontrivial += bool(args)

        def bad(kind, what):
            ctx.violation("%s@%s" % (kind, name), "gpquick %s: %s" % (" ".join(args), what), {"case": name})
        if wrong is not None:
            # an argument of the wrong kind may be the last one's value
            if status == 0 or given is not None:
                bad("accepted", "status %s, %s" % (status, "drawn" if given is not None else "not drawn"))
            elif not err.strip() or out.strip():
                bad("message", "refused with %r on the error stream and %r printed" % (err[-100:], out[:100]))
            return
        m = meaning(seq)
        if status != (rc if m["output"] else 0):
            return bad("status", "status %s: %s" % (status, err[-300:]))
        if bool(out.strip()) != bool(m["dump"] or not m["output"]):
            return bad("printed", "prints %r" % out[:200])
        if (given is not None) != bool(m["output"]):
            return bad("drawn", "gnuplot is %srun" % ("" if given is not None else "not "))
        for s in [out] * bool(out.strip()) + [given] * (given is not None):
            e = judge(s, m)
            if e:
                return bad("script", e)
        if given is not None and data != DATA:
            return bad("data", "gnuplot is given %d of %d bytes" % (len(data or ""), len(DATA)))
        if n % 500 == 7:
            ctx.sample("gpquick %s: %s" % (" ".join(args), "; ".join(commands(out or given))[:150]))
    core.pmap(one, list(enumerate(jobs)))
    ctx.rule = RULE
