#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md: properties (from meta.py and the harnesses' bounds) and seeds"""
import glob, importlib, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta
out = []
for p in meta.P:
    src = open(os.path.join(HERE, "props", p["id"] + ".py")).read()
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Encoded:* %s. *Quantified over:* %s." % ("; ".join("%s (`%s`)" % (a, b) for a, b in p["mech"]), p["text"]))
    m = re.search(r"ASSUMPTIONS = (\[.*?\])\n", src, re.S)
    if m:
        out.append("*Assumptions:* " + "; ".join(eval(m.group(1))) + ".")
    bs = []
    for mm in re.finditer(r"@HARNESSES\.(?:add|each)\((.*?)\)\ndef (\w+)", src, re.S):
        b = re.search(r'bounds="([^"]*)"', mm.group(1))
        bs.append("`%s`: %s" % (mm.group(2), b.group(1) if b else ""))
    out.append("*Harnesses and bounds:*\n" + "\n".join("- " + b for b in bs))
    if p.get("design"):
        out.append(p["design"])
    out.append("")
if meta.NA:
    out.append("### Not applicable\n")
    for n in meta.NA:
        out.append("* %s: %s" % (n["property"], n["reason"]))
RES = json.load(open(os.path.join(HERE, "tools", "seed_results.json")))
rows = ["| change | property | caught |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s: %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"].replace("|", "/"), m["property"], RES.get(os.path.basename(os.path.dirname(d)), "?")))
t = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
t = t.replace("PROPTABLE", "\n".join(out)).replace("SEEDTABLE", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
