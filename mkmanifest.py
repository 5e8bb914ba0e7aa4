#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below and properties.jsonl."""
import json
import os
TECH_P = "contract-based deductive verification: contracts on the real functions, verification conditions generated by symbolic execution of the current source and discharged by %s"
NF = "an algebraic decision procedure (normal forms over transcendental kernels)"
CLAIMS = {
    # id: (technique, level, note)
}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        t, lv, note = CLAIMS[i]
        m["checks"].append(dict(property=i, quick_cmd="./run %s" % i, thorough_cmd="VERIF_TIER=thorough ./run %s" % i, evidence_file="evidence/%s.json" % i, technique=t, level=lv, level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "not claimed: no check built yet")))
m["notes"] = "Checks never change /repo; genuine defects found were repaired by fix: commits listed in known_findings.txt."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
