#!/bin/bash
# runseeds.sh [id...]: apply each planted bug to /repo, run its property's check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  o=$(python3 check.py $p 2>/tmp/seed-$d.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $o"
  grep -E 'failed:|not proved:|proof:' /tmp/seed-$d.err | sed 's/^/     /' | head -6
done
