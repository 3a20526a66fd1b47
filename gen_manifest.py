#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and CLAIMS below"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(H, "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
         notes="All checks are run by check.py: contracts/*.cpp are contracts over the real functions of /repo; vcg/ generates and discharges the obligations.")
for p in props:
    if p in CLAIMS:
        tech, level, note = CLAIMS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                                technique=tech, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "contract not written yet")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
