#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.json and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(H + "/contracts/props.json"))
NA = json.load(open(H + "/contracts/not_applicable.json"))
checks, na = [], []
for l in open(H + "/properties.jsonl"):
    i = json.loads(l)["id"]
    if i in P:
        p = P[i]
        c = dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                 evidence_file="evidence/%s.json" % i, technique=p["technique"], level=p["level"], level_note=p["note"])
        if p["level"] == "proof":
            c["theorems"] = p["theorems"]
        checks.append(c)
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet: no contract for this property's functions has been written so far")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="contract-based deductive verification with Verus on functions extracted mechanically from /repo on every run; see DESIGN.md"),
          open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
