#!/usr/bin/env python3
"""DESIGN.md = design_head.md with tables generated from claims.py / properties.jsonl / seeded/"""
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(H, "claims.py")).read())
P = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
out = []
for p in P:
    i = p["id"]
    out.append("### %s %s" % (i, p["title"]))
    if i in DESIGN:
        out.append(DESIGN[i])
    if i in CLAIMS:
        out.append("*Strength:* " + CLAIMS[i][2])
    else:
        out.append("*Not applicable:* " + NA.get(i, "contract not written yet"))
    out.append("")
sd = []
for d in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    sd.append("* `%s` (%s): %s. Needs: %s. %s" % (n, m["property"], m["what_it_breaks"], m["needs"], SEEN.get(n, "")))
t = open(os.path.join(H, "design_head.md")).read()
open(os.path.join(H, "DESIGN.md"), "w").write(t.replace("PROPTABLE", "\n".join(out)).replace("SEEDTABLE", "\n".join(sd)))
