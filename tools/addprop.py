"""addprop.py: (re)writes contracts/props.json entries given as a python dict on stdin"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "props.json")
d = json.load(open(p))
NOTE = d["C01"]["note"]
for k, v in eval(sys.stdin.read()).items():
    e = dict(files=v["files"].split(), level=v.get("level", "proof"), roots=v["roots"].split(), explanation=v["explanation"],
             technique=v.get("technique", "contract-based deductive verification (Verus) of functions extracted from the source on every run"),
             theorems=v.get("theorems", v["roots"]).split(), note=v.get("note", NOTE))
    for x in ("trusted", "bounded", "assumptions", "rule", "seconds", "thorough_seconds", "derive", "replay"):
        if x in v: e[x] = v[x]
    d[k] = e
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
