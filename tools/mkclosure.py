#!/usr/bin/env python3
"""mkclosure.py: records, per property, the extracted functions its roots depend on in the verifier's call graph (contracts/closure.json).
check.py computes that graph itself on every run; the record only stands in where a changed function cannot be given to the verifier."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(HERE + "/contracts/props.json"))
out = {}
for pid in sorted(props):
    if not props[pid].get("files"):
        continue
    r = subprocess.run([sys.executable, HERE + "/check.py", pid], env=dict(os.environ, CHECK_CLOSURE="1"), stdout=subprocess.PIPE, text=True)
    d = json.loads(r.stdout.strip().splitlines()[-1])
    if d["graph"] is None:
        sys.exit("no call graph for " + pid)
    out[pid] = sorted(set(d["graph"]) | set(props[pid]["roots"]))
    print(pid, "graph only:", sorted(set(d["graph"]) - set(d["textual"])), "text only:", sorted(set(d["textual"]) - set(d["graph"])))
json.dump(out, open(HERE + "/contracts/closure.json", "w"), indent=1, sort_keys=True)
