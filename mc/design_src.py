#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (after the line <!-- generated -->)
from properties.jsonl, gen_manifest.CLAIMS, the rules of the checks, the known
findings and design_notes below.  Run by hand after changes."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "mc"))
import gen_manifest
N = {}   # property: notes: why it reaches beyond tests; what the bounds leave out; judgement of doubtful cases
exec(open(os.path.join(V, "mc", "design_notes.py")).read())
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    t, lvl, note = gen_manifest.CLAIMS[i]
    rule = importlib.import_module("mc.checks." + i.lower()).RULE
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Decided by* " + t + ".\n")
    out.append("*Space and oracle.* " + rule + "\n")
    out.append("*Limits.* " + note.replace(gen_manifest.BOUNDED, "") + "\n")
    if i in N:
        out.append(N[i].strip() + "\n")
    ks = [k for k in kf["known"] if k["property"] == i]
    for k in ks:
        out.append("*Known finding* `%s`: %s.\n" % (k["key"], k["what"]))
    fs = [f for f in kf["fixed"] if (f if isinstance(f, str) else f["property"]).replace("fixed: property=", "").startswith(i)]
    for f in fs:
        s = f if isinstance(f, str) else "%s %s" % (f["commit"], f["what"])
        out.append("* fixed: " + re.sub(r"^fixed: property=C\d\d ", "", s))
    out.append("")
p = os.path.join(V, "DESIGN.md")
head = open(p).read().split("<!-- generated -->")[0]
tail = "\n## Which checks catch which planted bugs\n\n" + open(os.path.join(V, "mc", "design_bugs.md")).read()
open(p, "w").write(head + "<!-- generated -->\n\n## The properties one by one\n\n" + "\n".join(out) + tail)
