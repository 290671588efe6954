#!/usr/bin/env python3
"""mkseed.py SPEC.py : plants each bug of SPEC in a scratch copy of /repo, confirms it (builds, stable tests pass, demo ok
without and failing with), and writes /verif/seeded/<id>/. SPEC defines BUGS = [dict(id, property, file, old, new, needs, breaks, main)]."""
import os, sys, json, subprocess, shutil, runpy
SB = "/tmp/seedbox"
BUGS = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on this input
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$here/main.rs" "$W/src/main.rs"
cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
schemars = { path = "$R/schemars"%s }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[workspace]
EOF
cd "$W" && CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true RUSTFLAGS= cargo run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(SB): sh("cp -a /repo " + SB)
sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq" % (SB, SB, SB))
base = json.load(open("/opt/vp/BASELINE.json"))
stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
for b in BUGS:
    if only and b["id"] not in only: continue
    d = "/verif/seeded/" + b["id"]
    sh("git -C %s checkout -q -- ." % SB)
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    bad = False
    for f, o, n in edits:
        p = os.path.join(SB, f); s = open(p).read()
        if s.count(o) != 1: print(b["id"], "old text occurs", s.count(o), "times in", f); bad = True; break
        open(p, "w").write(s.replace(o, n))
    if bad: continue
    diff = sh("git -C %s diff" % SB).stdout
    sh("mkdir -p %s/target; sed 's#^cd /repo#cd %s#' /opt/vp/env.sh > /tmp/seedenv.sh" % (SB, SB))
    r = sh(". /tmp/seedenv.sh; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; sed -i -E 's/^(test tests\\/ui\\/[^ ]+ \\.\\.\\. )(mismatch|error|wip)$/\\1FAILED/' /tmp/seed.log; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log", executable="/bin/bash")
    res = json.load(open("/tmp/seed.json")); passed = set(res.get("passed", res.get("pass", [])))
    missing = sorted(stable - passed)
    if missing:
        print(b["id"], "TESTS FAIL:", len(missing), missing[:6], [l for l in open("/tmp/seed.log") if l.startswith("error")][:3])
        continue
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % b.get("features", ""))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(b["main"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd=SB)
    sh("git -C %s checkout -q -- ." % SB)
    c = sh("bash %s/demo.sh" % d, cwd=SB)
    good = a.returncode != 0 and c.returncode == 0 and "error[" not in a.stdout and "could not compile" not in a.stdout
    print(b["id"], "OK" if good else "BAD", "with patch rc", a.returncode, "without rc", c.returncode, "" if good else (a.stdout[-1500:] + c.stdout[-1500:]))
    if not good: shutil.rmtree(d)
