#!/usr/bin/env python3
"""check.py PROPERTY [--keep]   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. builds the extractor, the serde_json the proofs are typed against, and the replay program (against /repo);
2. extracts the functions the property depends on from /repo's current source, with their contracts;
3. runs Verus on them; 4. runs the concrete search on the real code; 5. writes evidence/PROPERTY.json.
Exit 0: the property held on everything explored. Exit 1 + VIOLATION line: it is broken."""
import json, os, re, subprocess, sys, time, threading, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(HERE, "build")
EV = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(EV, "replays")
WORK = os.path.join(BUILD, "work-" + PID)
PROPS = json.load(open(os.path.join(HERE, "contracts", "props.json")))
P = PROPS[PID]
REPLAY = P.get("replay", "replay")
VERUS_TC = "1.98.1"
VERUS_LIMIT = 420


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_BACKTRACE"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", NO_COLOR="1", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "TIMEOUT"


def build_all():
    """cargo builds, in parallel; returns paths; a replay that does not build is reported (None)"""
    res = {}

    def go(name, d, toolchain, args):
        res[name] = run(["cargo", "build", "--offline"] + args, cwd=os.path.join(HERE, d),
                        env=env(RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=os.path.join(BUILD, name)), timeout=600)
    ts = [threading.Thread(target=go, args=a) for a in (
        ("vx", "tools/vx", "stable", ["--release"]), ("dep", "tools/dep", VERUS_TC, []), (REPLAY, REPLAY, "stable", []))]
    if P.get("derive"):
        ts.append(threading.Thread(target=lambda: DERIVE.update(expand())))
    [t.start() for t in ts]
    [t.join() for t in ts]
    for n in ("vx", "dep"):
        if res[n][0] != 0:
            print("check.py: building %s failed\n%s" % (n, res[n][2]), file=sys.stderr)
            sys.exit(3)
    if res[REPLAY][0] != 0:
        log("replay does not build:", res[REPLAY][2][-3000:])
        if P.get("derive") and "could not compile `replay23`" in res[REPLAY][2]:
            # the crates under test build, the code the macro generates for these declarations does not
            DERIVE["uncompilable"] = res[REPLAY][2][-8000:]
    return res[REPLAY][0] == 0


DERIVE = {}


def expand():
    """the code the real macro, built from /repo's current source, generates for the declarations of derive/corpus.rs"""
    src = os.path.join(WORK, "expand")
    rc, so, se = run([sys.executable, os.path.join(HERE, "tools", "mkderive.py"), REPO, src], timeout=60)
    if rc == 0:
        rc, so, se = run(["cargo", "build", "--offline"], cwd=src, env=env(RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=os.path.join(BUILD, "expand")), timeout=600)
    if rc == 0:
        rc, so, se = run([os.path.join(BUILD, "expand", "debug", "expand"), os.path.join(HERE, "derive", "corpus.rs")], timeout=60, env=env())
    if rc != 0:
        return dict(failed="the macro could not be built as a program: " + se[-2000:])
    f = os.path.join(WORK, "derive.rs")
    open(f, "w").write(so)
    return dict(file=f, programs=len(re.findall(r"^mod ", so, re.M)))


DEPS = os.path.join(BUILD, "dep", "debug", "deps")


def rlib():
    c = [f for f in os.listdir(DEPS) if f.startswith("libserde_json-") and f.endswith(".rlib")]
    return os.path.join(DEPS, c[0])


def vx(out, stub=(), extra_env=None, files=None):
    fs = [os.path.join(HERE, "contracts", f + ".vc") for f in (files or P["files"])]
    e = env(VX_STUB=",".join(stub), VX_DERIVE=DERIVE.get("file", ""))
    e.update(extra_env or {})
    r = run([os.path.join(BUILD, "vx", "release", "vx"), REPO, out + ".rs", out + ".json"] + fs, env=e, timeout=120)
    if r[0] != 0:
        return None, (r[1] + r[2])[-2000:]
    return json.load(open(out + ".json")), ""


def call_graph(m0):
    """the functions the roots depend on, from the verifier's own resolved call graph (None if it could not be made)"""
    out = os.path.join(WORK, "cg")
    m, _ = vx(out, extra_env={"VX_MARK": "1"})
    if m is None or [f["key"] for f in m["functions"]] != [f["key"] for f in m0["functions"]]:
        return None
    if any(f["lost"] for f in m["functions"]):
        return None
    d = os.path.join(WORK, "cglog")
    rc, so, se = run(["verus", "--crate-type=lib", "--edition=2021", "--no-verify", "--build-sst", "--log-dir", d, "--log", "call-graph", out + ".rs",
                      "-L", "dependency=" + DEPS, "--extern", "serde_json=" + rlib()], env=env(RUSTUP_TOOLCHAIN=VERUS_TC), cwd=WORK, timeout=200)
    g = os.path.join(d, "crate-call-graph-nostd-initial.dot")
    if rc != 0 or not os.path.exists(g):
        return None
    lab, ed, marks, rev = {}, {}, {}, {}
    for l in open(g):
        x = re.match(r'\s*(node_\d+) \[.*label="(.*?)"', l)
        if x:
            lab[x.group(1)] = x.group(2)
            y = re.match(r"Fun\\ncg::__mark_(\d+)$", x.group(2))
            if y:
                marks[x.group(1)] = int(y.group(1))
            continue
        x = re.match(r"\s*(node_\d+) -> (node_\d+)", l)
        if x:
            ed.setdefault(x.group(1), set()).add(x.group(2))
            rev.setdefault(x.group(2), set()).add(x.group(1))
    keys = [f["key"] for f in m["functions"]]
    node = {}
    for n, i in marks.items():
        for s in rev.get(n, ()):
            if lab.get(s, "").startswith("Fun"):
                node[keys[i]] = s
    todo, seen, cl = [node[r] for r in P["roots"] if r in node], set(), []
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for t in ed.get(n, ()):
            if t in marks:
                cl.append(keys[marks[t]])
            elif lab.get(t, "").startswith(("Fun", "TraitImplPath")):
                todo.append(t)
    return cl


def closure(m):
    fns = {f["key"]: f for f in m["functions"]}
    by = {}
    for f in m["functions"]:
        by.setdefault(f["key"].split("::")[-1], []).append(f["key"])
    seen, todo = [], [r for r in P["roots"] if r in fns]
    missing = [r for r in P["roots"] if r not in fns]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.append(k)
        f = fns[k]
        deps = f["deps"].split()
        todo += [d for d in deps if d in fns]
        for c in f["calls"]:
            ks = by.get(c, [])
            if len(ks) > 1:
                ks = [x for x in ks if x in deps]
            todo += ks
    return seen, missing, fns


ERR = re.compile(r"^(error(?:\[[A-Z0-9]+\])?): (.*)$")
LOC = re.compile(r"^\s*--> (.*?):(\d+):(\d+)")
# messages by which the verifier says an obligation is not provable (as opposed to: it gave up, or cannot read the text)
FAIL = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic",
        "assertion not satisfied", "constructed value may fail", "recommendation not met", "possible division by zero", "unreachable", "failed this postcondition",
        "possible bit shift", "decreases not satisfied", "loop invariant", "cannot show", "index out of bounds", "possible index")
GAVEUP = ("resource limit", "rlimit", "timeout", "timed out", "not supported", "unsupported")


def errors(text):
    """[(message, primary line, whole block)]"""
    out, cur = [], None
    for l in text.splitlines():
        m = ERR.match(l)
        if m:
            if m.group(2).startswith("aborting due to") or m.group(2).startswith("could not compile"):
                cur = None
                continue
            cur = [m.group(2), None, [l], bool("[" in m.group(1))]
            out.append(cur)
        elif cur is not None:
            if l.startswith("verification results") or l.startswith("warning") or l.startswith("note: ") and False:
                cur = None
                continue
            cur[2].append(l)
            m = LOC.match(l)
            if m and cur[1] is None:
                cur[1] = int(m.group(2))
    return out


def classify(msg, code):
    ml = msg.lower()
    if code:
        return "compile"
    if any(g in ml for g in GAVEUP):
        return "gaveup"
    if any(g in ml for g in FAIL):
        return "fail"
    return "compile"


def verus(out, extra=(), timeout=VERUS_LIMIT):
    cmd = ["verus", "--crate-type=lib", "--edition=2021", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--no-report-long-running"] if False else \
          ["verus", "--crate-type=lib", "--edition=2021", "--triggers-mode", "silent", "--output-json", "--time-expanded"]
    cmd += list(extra) + [out + ".rs", "-L", "dependency=" + DEPS, "--extern", "serde_json=" + rlib()]
    rc, so, se = run(cmd, env=env(RUSTUP_TOOLCHAIN=VERUS_TC), cwd=WORK, timeout=timeout)
    try:
        j = json.loads(so[so.index("{"):])
    except ValueError:
        j = None
    return rc, j, se, " ".join(cmd)


def fn_times(j):
    d = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                d[f["function"]] = (f["success"], f["time-micros"] / 1e6, f["rlimit"])
    except (KeyError, TypeError):
        pass
    return d


def scan_trusted(path):
    """mechanical scan of the verified text for everything taken on trust"""
    t = open(path).read()
    out = []
    for m in re.finditer(r"assume_specification(?:<[^\[]*>)?\s*\[\s*(.*?)\s*\]\s*\(", t):
        out.append("assumed contract: " + re.sub(r"\s+", " ", m.group(1)))
    for m in re.finditer(r"axiom fn (\w+)", t):
        out.append("axiom: " + m.group(1))
    for m in re.finditer(r"uninterp spec fn (\w+)", t):
        out.append("uninterpreted: " + m.group(1))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(fn|proof fn|struct) (\w+)", t):
        out.append("external_body %s: %s" % (m.group(1), m.group(2)))
    for w in ("assume(", "admit("):
        n = len(re.findall(r"(?<![\w.])" + re.escape(w), t))
        if n:
            out.append("%d uses of %s)" % (n, w))
    if "exec_allows_no_decreases_clause" in t:
        out.append("termination not proved: %d functions carry exec_allows_no_decreases_clause" % t.count("exec_allows_no_decreases_clause"))
    return sorted(set(out))


def prove():
    """returns dict(status, proved, fns, fails, lost, ...)"""
    r = dict(status="proved", fails=[], lost=[], closure=[], fns={}, verified=0, solver=0.0, cmd="", trusted=[], note="", funcs=[])
    if not P.get("files"):
        r["status"] = "none"
        return r
    base = os.path.join(WORK, "p")
    if P.get("derive") and "file" not in DERIVE:
        r.update(status="lost", note=DERIVE.get("failed", "no expansion"))
        return r
    m, why = vx(base)
    if m is None:
        r.update(status="lost", note="extraction: " + why)
        return r
    cl, missing, fns = closure(m)
    g = call_graph(m)
    if os.environ.get("CHECK_CLOSURE"):  # tools/mkclosure.py
        print(json.dumps(dict(textual=cl, graph=g)))
        sys.exit(0)
    if g is not None:
        cl = [k for k in fns if k in g or k in P["roots"]]
    else:  # some function is outside the verifier's reach: what its text names, and the dependencies recorded for the base tree
        rec = json.load(open(os.path.join(HERE, "contracts", "closure.json"))).get(PID, [])
        cl = cl + [k for k in rec if k in fns and k not in cl]
    r["lost"] += [(k, "function not found in the source") for k in missing]
    stub = set(k for k in fns if k not in cl)
    canary = {}

    def do_canary():
        t = open(base + ".rs").read()
        i = t.rindex("} // verus!")
        t = t[:i] + "proof fn __canary() ensures false { obeys_facts(); %s }\n" % ("lemma_kwid();" if "proof fn lemma_kwid" in t else "") + t[i:]
        open(base + "_canary.rs", "w").write(t)
        canary["r"] = verus(base + "_canary", ["--verify-root", "--verify-function", "__canary"], 200)
    for attempt in range(10):
        m, why = vx(base, stub)
        if m is None:
            r.update(status="lost", note="extraction: " + why)
            return r
        fl = {f["key"]: f for f in m["functions"]}
        for k in cl:
            if k in fl and fl[k]["lost"] and k not in [x[0] for x in r["lost"]]:
                r["lost"].append((k, fl[k]["lost"]))
        th = None
        if attempt == 0:
            th = threading.Thread(target=do_canary)
            th.start()
        rc, j, se, cmd = verus(base)
        if th:
            th.join()
        r["cmd"] = cmd
        errs = errors(se)
        comp = [e for e in errs if classify(e[0], e[3]) == "compile"]
        if j is None or j.get("verification-results", {}).get("encountered-vir-error") is not False:
            comp = errs
        if j is None and se == "TIMEOUT":
            r.update(status="lost", note="Verus did not finish in %d s" % VERUS_LIMIT)
            return r
        ok = j is not None and j.get("verification-results", {}).get("encountered-vir-error") is False
        if comp or not ok:
            new = set()
            for e in comp:
                ks = [k for k, f in fl.items() if e[1] and f["start"] <= e[1] <= f["end"] and not f["stub"]]
                if not ks:  # any line of the block
                    ls = [int(m_.group(2)) for m_ in map(LOC.match, e[2]) if m_]
                    ks = [k for k, f in fl.items() for l in ls if f["start"] <= l <= f["end"] and not f["stub"]]
                for k in ks:
                    new.add(k)
                    r["lost"].append((k, "outside the verifier's reach: " + e[0]))
            if not new:
                r.update(status="lost", note="Verus could not process the extracted text: " + se[-3000:])
                return r
            log("stubbing", new)
            stub |= new
            continue
        break
    else:
        r.update(status="lost", note="too many functions outside the verifier's reach")
        return r
    if "__canary" in canary.get("r", (0, None, "", ""))[2] or canary.get("r", (0, None))[1] is None:
        pass
    cj = canary.get("r", (0, None, "", ""))
    cres = (cj[1] or {}).get("verification-results", {})
    if attempt == 0 and cj[1] is not None and cres.get("encountered-vir-error") is False and cres.get("success"):
        print("check.py: vacuous: the axioms prove false", file=sys.stderr)
        sys.exit(3)
    r["canary"] = "rejected" if (attempt == 0 and cres.get("errors", 0) >= 1) else "not run"
    vr = j["verification-results"]
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    r["times"] = fn_times(j)
    r["solver"] = sum(v[1] for v in r["times"].values())
    r["trusted"] = scan_trusted(base + ".rs")
    r["rules"] = m.get("rules", [])
    gave = []
    for e in errs:
        c = classify(e[0], e[3])
        ks = [k for k, f in fl.items() if e[1] and f["start"] <= e[1] <= f["end"]]
        if not ks:
            ls = [int(m_.group(2)) for m_ in map(LOC.match, e[2]) if m_]
            ks = [k for k, f in fl.items() for l in ls if f["start"] <= l <= f["end"]]
        k = ks[0] if ks else "(lemma)"
        if c == "fail":
            r["fails"].append((k, e[0], "\n".join(e[2])))
        else:
            gave.append((k, e[0]))
    # a function that hit the resource limit as well is undecided
    gk = set(g[0] for g in gave)
    r["lost"] += [(k, msg) for k, msg in gave]
    r["fails"] = [f for f in r["fails"]]
    r["closure"] = cl
    lostk = set(x[0] for x in r["lost"])
    for k in cl:
        f = fl.get(k)
        if f:
            r["funcs"].append(dict(function="%s :: %s" % (f["file"], f["path"]), contract=k,
                                   status="failed" if k in [x[0] for x in r["fails"]] else "not proved" if k in lostk else "assumed contract (stub)" if f["stub"] else "proved"))
    if r["fails"]:
        r["status"] = "failed"
    elif r["lost"]:
        r["status"] = "lost"
    elif r["verified"] == 0 or vr["errors"]:
        r.update(status="lost", note="no obligation was generated")
    return r


def search(built, seconds):
    out = os.path.join(WORK, "replay.json")
    for f in (out, out + ".stats"):
        if os.path.exists(f):
            os.remove(f)
    if DERIVE.get("uncompilable"):
        return dict(rc=10, stats={}, found=dict(property=PID, violated="the code generated for a declaration with supported attributes does not compile", got=DERIVE["uncompilable"],
                    input=os.path.join(HERE, REPLAY, "src", "types.rs")))
    if not built:
        return dict(rc=None, found=None, stats={})
    rc, so, se = run([os.path.join(BUILD, REPLAY, "debug", REPLAY), PID, TIER, str(SEED), str(seconds), out], timeout=seconds * 3 + 120, cwd=WORK, env=env())
    st = {}
    try:
        st = json.load(open(out + ".stats"))
    except (OSError, ValueError):
        pass
    found = None
    if rc == 10:
        found = json.load(open(out))
    elif rc not in (0, -9):
        log("search ended with", rc, se[-2000:])
    return dict(rc=rc, found=found, stats=st, err=se[-2000:])


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        l = l.strip()
        if l.startswith("finding: property=%s " % PID):
            out.append(l[len("finding: property=%s " % PID):])
    return out


def main():
    shutil.rmtree(WORK, ignore_errors=True)
    os.makedirs(WORK)
    os.makedirs(REPLAYS, exist_ok=True)
    built = build_all()
    log("built")
    secs = P.get("seconds", 15) if TIER == "quick" else P.get("thorough_seconds", 240)
    box = {}
    th = threading.Thread(target=lambda: box.update(s=search(built, secs)))
    th.start()
    pr = prove()
    log("proof:", pr["status"], pr.get("verified"), "verified", len(pr["fails"]), "failed", len(pr["lost"]), "not proved", pr["note"][:400])
    for k in pr["lost"]:
        log("  not proved:", k[0], "-", str(k[1])[:200])
    for k in pr["fails"]:
        log("  failed:", k[0], "-", k[1])
    th.join()
    s = box["s"]
    log("search:", s["rc"], {k: v for k, v in s["stats"].items() if k in ("evaluations", "distinct_nontrivial")})
    if pr["status"] in ("failed", "lost") and not s["found"] and built and P.get("files"):
        # a longer search when the proof does not carry the property
        global SEED
        SEED += 1000
        s2 = search(built, min(90, secs * 4))
        SEED -= 1000
        if s2["found"] or s2["stats"].get("evaluations", 0) > s["stats"].get("evaluations", 0):
            s = s2
        log("search 2:", s["rc"], {k: v for k, v in s["stats"].items() if k in ("evaluations", "distinct_nontrivial")})
    rc = 0
    rp = os.path.join(REPLAYS, PID + ".json")
    if s["found"]:
        json.dump(dict(property=PID, kind="input", tree="/repo working tree", found=s["found"],
                       failed_obligations=[dict(function=k, message=msg) for k, msg, _ in pr["fails"]],
                       rerun="%s %s %s %s %s OUT" % (os.path.join(BUILD, REPLAY, "debug", REPLAY), PID, TIER, SEED, secs)), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (PID, rp))
        rc = 1
    elif pr["status"] == "failed":
        json.dump(dict(property=PID, kind="failed obligation", functions=[dict(function=k, message=msg, verifier_output=b) for k, msg, b in pr["fails"]],
                       not_proved=pr["lost"], search=s["stats"], checker_cmd=pr["cmd"]), open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (PID, rp))
        rc = 1
    for k in known():
        sig = k.split(" ", 1)[0]
        if sig in s["stats"].get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (PID, k))
    st = s["stats"]
    proved = pr["status"] == "proved"
    cov = dict(
        explanation=P["explanation"] if proved or not P.get("files") else
        "NOT PROVED on this run (%s); the concrete search below stands in, bounded" % (pr["note"][:300] or "; ".join("%s: %s" % (a, str(b)[:120]) for a, b in pr["lost"]) or "failed obligations"),
        evaluations=st.get("evaluations", 0), distinct_nontrivial=st.get("distinct_nontrivial", 0),
        rule=P.get("rule", "concrete cases run on the real code and compared with the property's oracle (a bounded companion of the proof, never counted as proved)"),
        samples=st.get("samples", [])[:6])
    level = P["level"]
    if P.get("files"):
        cov.update(obligations=pr["verified"] + len(pr["fails"]) + len(pr["lost"]), discharged=pr["verified"], checker_cmd=pr["cmd"] or "verus (not run)",
                   trusted_base=pr["trusted"] + P.get("trusted", []), backend="Verus 0.2026.09.13.671956e, Z3 4.12.5 as shipped with it",
                   functions=pr["funcs"], solver_s=round(pr["solver"], 2), canary=pr.get("canary"), extraction_rules=pr.get("rules", []),
                   not_proved=[dict(function=a, reason=str(b)[:300]) for a, b in pr["lost"]], failed=[dict(function=a, message=b) for a, b, _ in pr["fails"]],
                   bounded=P.get("bounded", []))
        if P.get("derive"):
            cov.update(programs=sum(f["contract"].startswith("derive_") and f["status"] == "proved" for f in pr["funcs"]), disagreements_checked=st.get("evaluations", 0))
        if not proved and level == "proof":
            level = "exploration" if pr["status"] == "lost" else "proof"
    json.dump(dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=P.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=rc),
              open(os.path.join(EV, PID + ".json"), "w"), indent=1)
    if not built and rc == 0:
        if proved:
            log("the concrete search could not be built")
        else:
            print("check.py: neither the proof nor the search could decide", file=sys.stderr)
            rc = 3
    if s["rc"] not in (0, 10, None) and rc == 0 and not proved:
        print("check.py: search failed: %s" % s.get("err"), file=sys.stderr)
        rc = 3
    log("exit", rc)
    sys.exit(rc)


main()
