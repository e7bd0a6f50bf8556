#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree.

 1. vx extracts the functions under contract from /repo's source and attaches the side-car contracts;
 2. Verus discharges every obligation (the deciding step), a second run with canaries guards against vacuity;
 3. the same contracts, in executable form, run against the real crate on machine floats: this finds the
    concrete failing input for a rejected obligation, and stands in (labelled bounded) for whatever the
    extraction or the verifier cannot take.
"""
import concurrent.futures, fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
os.environ["VERIF_TIER"] = TIER
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
os.environ["VERIF_SEED"] = str(SEED)
T0 = time.time()
NL = [] if "set nl=off" in open(os.path.join(V, "contracts", PID + ".vc")).read() else ["--smt-option", "smt.arith.nl=true"]
RLIMIT = "60"
VERUS_TIMEOUT = 400 if TIER == "quick" else 1500

def say(*a):
    print(*a, flush=True)

def run(cmd, timeout=None, cwd=None, env=None):
    """run a command in its own process group; returns (rc, out, err), rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

def cargo_build(manifest_dir, target, extra=()):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_NET_OFFLINE="true")
    return run(["cargo", "build", "--offline", *extra], timeout=700, cwd=manifest_dir, env=env)

def build_vx():
    with Lock("vx"):
        rc, o, e = cargo_build(os.path.join(V, "vx"), "vx-target", ["--release"])
    if rc != 0:
        return None, e
    return os.path.join(BUILD, "vx-target/release/vx"), ""

def build_replay():
    """returns (binary, mode, note)"""
    with Lock("replay"):
        last = ""
        for mode, extra in (("priv", ["--features", "priv"]), ("public", [])):
            rc, o, e = cargo_build(os.path.join(V, "replay"), "replay-target-" + mode, extra)
            if rc == 0:
                return os.path.join(BUILD, f"replay-target-{mode}/debug/replay"), mode, last
            last = e[-3000:]
        return None, None, last

# ------------------------------------------------------------------ verus
PROOF_ERR = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|invariant not satisfied.*|"
                       r"possible arithmetic (underflow|overflow).*|possible division by zero|decreases not satisfied.*|loop invariant not satisfied.*|"
                       r"unable to prove.*|requires not satisfied|recommendation not met|cannot show invariant.*|could not prove termination.*|loop must have.*)", re.M)

def run_verus(path, extra=(), multi="20", rlimit=None):
    cmd = ["verus", path, "--output-json", "--time", "--multiple-errors", multi, "--rlimit", rlimit or RLIMIT, "--num-threads", "4", *NL, *extra]
    t = time.time()
    rc, o, e = run(cmd, timeout=VERUS_TIMEOUT, cwd=os.path.dirname(path))
    res = {"cmd": " ".join(cmd), "rc": rc, "wall": time.time() - t, "stderr": e, "verified": None, "errors": None, "times": {}, "smt_ms": None}
    if rc is None:
        res["status"] = "timeout"
        return res
    try:
        j = json.loads(o[o.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"], res["errors"] = vr.get("verified"), vr.get("errors")
        res["enc_err"] = vr.get("encountered-vir-error")
        tm = j.get("times-ms", {})
        res["smt_ms"] = tm.get("smt", {}).get("total") if isinstance(tm.get("smt"), dict) else None
    except Exception:
        pass
    if res["verified"] is None or (res["verified"] == 0 and not res["errors"]):
        res["status"] = "compile-error"
    elif rc == 0 and res["errors"] == 0:
        res["status"] = "ok"
    elif res["errors"]:
        res["status"] = "rejected"
    else:
        res["status"] = "compile-error"
    return res

def split_errors(stderr):
    """list of (message, line, block)"""
    out = []
    for blk in re.split(r"(?m)^(?=error)", stderr):
        if not blk.startswith("error"):
            continue
        msg = blk.split("\n", 1)[0]
        if msg.startswith("error: aborting"):
            continue
        lines = [int(x) for x in re.findall(r"--> [^\n]*?main\.rs:(\d+):", blk)]
        extra = [int(x) for x in re.findall(r"(?m)^\s*(\d+)\s*\|", blk)]
        out.append((msg, lines, lines + extra, blk.strip()))
    return out

def locate(functions, lines):
    for l in lines:
        for f in functions:
            if f["start"] <= l <= f["end"]:
                return f
    return None

TRUST_RE = re.compile(r"external_body|\bassume\(|\badmit\(|broadcast axiom|axiom fn|uninterp|assume_specification|external_fn_specification")

def scan_trusted(path):
    """mechanical scan of the generated file for everything that is assumed rather than proved"""
    out = {"external_body": [], "axiom": [], "uninterp": [], "assume": [], "assume_specification": []}
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        if l.strip().startswith("//"):
            continue
        if "external_body" in l:
            m = None
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)", lines[k])
                if m:
                    break
            out["external_body"].append(m.group(1) if m else l.strip())
        m = re.search(r"axiom fn (\w+)", l)
        if m:
            out["axiom"].append(m.group(1))
        m = re.search(r"uninterp spec fn (\w+)", l)
        if m:
            out["uninterp"].append(m.group(1))
        if re.search(r"\b(assume|admit)\(", l):
            out["assume"].append(l.strip())
        m = re.search(r"assume_specification.*?\[(.*?)\]", l)
        if m:
            out["assume_specification"].append(m.group(1).strip())
    return {k: sorted(set(v)) for k, v in out.items()}

# ------------------------------------------------------------------ replay
def load_known():
    p = os.path.join(V, "known_findings.txt")
    known = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == PID:
                known.append((m.group(2), m.group(3)))
    return known

def run_replay(binary, tier, budget, timeout, known):
    scratch = tempfile.mkdtemp(prefix="vxreplay-")
    try:
        out = os.path.join(scratch, "out.json")
        env = dict(os.environ, VX_OUT=out, VERIF_TIER=tier, VX_BUDGET=str(budget), VX_KNOWN=";".join(k for k, _ in known), VX_SCRATCH=scratch, VX_REPO=REPO)
        rc, o, e = run([binary, PID], timeout=timeout, cwd=scratch, env=env)
        j = None
        if os.path.exists(out):
            try:
                j = json.load(open(out))
            except Exception:
                j = None
        if j is not None:
            return j
        # crashed (stack overflow, abort) or hung without the watchdog: find the case
        tr = os.path.join(scratch, "trace")
        env["VX_TRACE"] = tr
        rc2, o2, e2 = run([binary, PID], timeout=timeout, cwd=scratch, env=env)
        case = open(tr).read() if os.path.exists(tr) else "(no case started)"
        grp, _, desc = case.partition("\n")
        return {"property": PID, "evaluations": 1, "distinct": 1, "groups": {}, "samples": [], "known": [],
                "fails": [[grp, desc, f"process died (exit {rc2}, {(e2 or '')[-300:]})"]]}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    ev_dir = os.path.join(V, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    work = os.path.join(BUILD, PID)
    os.makedirs(work, exist_ok=True)
    known = load_known()
    unit = os.path.join(V, "contracts", PID + ".vc")
    notes, undecided = [], []
    functions, verus_res, rejected, canary = [], None, [], None
    trusted = {}

    # start the replay build in parallel with the proof
    import threading
    rb = {}
    th = threading.Thread(target=lambda: rb.update(zip(("bin", "mode", "note"), build_replay())))
    th.start()

    if os.path.exists(unit):
        vx, err = build_vx()
        if vx is None:
            undecided.append("vx did not build: " + err[-500:])
        else:
            gen = os.path.join(work, "main.rs")
            rc, o, e = run([vx, "--repo", REPO, "--unit", unit, "--out", gen], timeout=120)
            try:
                ex = json.loads(o)
            except Exception:
                ex = {"functions": [], "errors": ["extraction crashed: " + (e or "")[-400:]]}
            functions = ex["functions"]
            if ex["errors"]:
                undecided += ["extraction: " + x for x in ex["errors"]]
            else:
                trusted = scan_trusted(gen)
                verus_res = run_verus(gen)
                st = verus_res["status"]
                if st == "rejected":
                    errs = split_errors(verus_res["stderr"])
                    hard = []
                    for msg, l, al, blk in errs:
                        if "rlimit" in msg.lower() or "resource limit" in msg.lower():
                            f = locate(functions, al)
                            undecided.append("resource limit in " + (f["key"] if f else "?"))
                        elif PROOF_ERR.match(msg):
                            f = locate(functions, l) or locate(functions, al)
                            hard.append((f["key"] if f else "(lemma)", msg, blk))
                        else:
                            undecided.append("verifier: " + msg)
                    rejected = hard
                elif st == "compile-error":
                    first = [x for x in split_errors(verus_res["stderr"])][:3]
                    undecided.append("the extracted code is outside the verifier's dialect: " + " / ".join(m for m, _, _, _ in first))
                elif st == "timeout":
                    undecided.append("verifier timed out")
                else:
                    # vacuity guard
                    cgen = os.path.join(work, "canary", "main.rs")
                    rc, o, e = run([vx, "--repo", REPO, "--unit", unit, "--out", cgen, "--canary"], timeout=120)
                    n = json.loads(o)["canaries"]
                    # the lemmas were proved by the run above; here only their statements matter
                    ctext0 = re.sub(r"(?m)^((?:pub )?(?:broadcast )?proof fn )", r"#[verifier::external_body] \1", open(cgen).read())
                    open(cgen, "w").write(ctext0)
                    lines = [i + 1 for i, l in enumerate(open(cgen)) if "// CANARY" in l]
                    cr = run_verus(cgen, multi="200", rlimit="5")
                    hit = set()
                    for m in re.finditer(r"main\.rs:(\d+):", cr["stderr"]):
                        hit.add(int(m.group(1)))
                    missing = [l for l in lines if l not in hit]
                    # a canary whose query ran into the resource limit was not accepted either
                    ctext0 = open(cgen).read().split("\n")
                    fnstart = [i + 1 for i, x in enumerate(ctext0) if x.startswith("// VXFN")]
                    owner = lambda l: max([x for x in fnstart if x <= l], default=0)
                    limited = {owner(l) for msg, ls, al, blk in split_errors(cr["stderr"]) if "esource limit" in msg for l in ls}
                    starved = [l for l in missing if owner(l) in limited]
                    missing = [l for l in missing if owner(l) not in limited]
                    if missing and cr["status"] == "rejected":
                        # the combined query may have stopped early in that function: try each of them alone
                        ctext = open(cgen).read().split("\n")
                        def alone(k):
                            t = [x if "// CANARY" not in x or i + 1 == k else "" for i, x in enumerate(ctext)]
                            d = os.path.join(work, "canary%d" % k)
                            os.makedirs(d, exist_ok=True)
                            open(os.path.join(d, "main.rs"), "w").write("\n".join(t))
                            fn = next((m.group(1) for m in (re.search(r"\bfn (\w+)", ctext[j]) for j in range(k - 1, -1, -1)) if m), None)
                            only = ["--verify-root", "--verify-function", "*" + fn] if fn else []
                            r1 = run_verus(os.path.join(d, "main.rs"), extra=only, multi="1")
                            if only and r1["status"] != "rejected":
                                r1 = run_verus(os.path.join(d, "main.rs"), multi="1")
                            shutil.rmtree(d, ignore_errors=True)
                            return k, r1["status"]
                        with concurrent.futures.ThreadPoolExecutor(4) as ex:
                            st1 = dict(ex.map(alone, missing[:12]))
                        missing = [k for k in missing if st1.get(k) != "rejected"]
                    canary = {"planted": n, "rejected": n - len(missing) - len(starved), "not_accepted_within_resource_limit": len(starved)}
                    if missing and cr["status"] == "rejected":
                        src = open(cgen).read().split("\n")
                        undecided.append("vacuous context (canary accepted): " + "; ".join(src[l - 1].split("// CANARY")[1].strip() for l in missing[:5]))
                    elif cr["status"] != "rejected":
                        undecided.append("canary run gave no answer: " + cr["status"])
    else:
        undecided.append("no contract file")

    th.join()
    if rb.get("bin") is None:
        say("ERROR: the repository does not build with the replay harness")
        say(rb.get("note", ""))
        # nothing can be run: the proof alone decides
        rep = None
    else:
        rep = run_replay(rb["bin"], TIER, 60 if TIER == "quick" else 600, 240 if TIER == "quick" else 1200, known)
        if not rep["fails"] and rejected and TIER == "quick":
            left = 800 - (time.time() - T0)
            if left > 60:
                deep = run_replay(rb["bin"], "thorough", min(200, left / 2), min(300, left - 30), known)
                if deep["fails"]:
                    rep = deep

    violations = 0
    lines = []
    rp = os.path.join(work, "replay.txt")
    if rep and rep["fails"]:
        violations = len(rep["fails"])
        with open(rp, "w") as f:
            f.write(f"property {PID}: the contract is violated by the real code in /repo\n\n")
            for g, d, m in rep["fails"]:
                f.write(f"contract clause: {g}\ninput: {d}\nobserved: {m}\n\n")
            f.write(f"re-run: cd /verif && VERIF_SEED={SEED} VERIF_TIER={TIER} python3 check.py {PID}\n")
            for k, m, b in rejected:
                f.write(f"\nrejected obligation in {k}:\n{b}\n")
        lines.append(f"VIOLATION property={PID} replay={rp}")
        for g, d, m in rep["fails"][:5]:
            say(f"  clause: {g}\n  input: {d[:600]}\n  observed: {m[:400]}")
    elif rejected:
        violations = len(rejected)
        with open(rp, "w") as f:
            f.write(f"property {PID}: Verus rejects obligations generated from /repo's current source; no failing input found\n\n")
            for k, m, b in rejected:
                f.write(f"obligation in {k}: {m}\n{b}\n\n")
        for k, m, b in rejected[:8]:
            say(f"  rejected obligation in {k}: {m}")
        lines.append(f"VIOLATION property={PID} replay={rp} no-failing-input-found")

    proved = verus_res is not None and verus_res["status"] == "ok" and not undecided
    real_fns = [f for f in functions if not f.get("external")]
    tb = [
        "Verus 0.2026.09.13 (vstd, Z3) and rustc's front end",
        "the vx extraction (f64 becomes exact reals; for/iterator chains become index loops; see DESIGN.md)",
    ]
    for k, v in trusted.items():
        if v:
            tb.append(f"{k}: " + ", ".join(v))
    ass = ["machine floating-point arithmetic is treated as exact real arithmetic in the proof (the replay runs use real f64)"]
    ass += sorted({n for f in functions for n in f["notes"]})
    oblig = (verus_res or {}).get("verified") or 0
    err = (verus_res or {}).get("errors") or 0
    cov = {
        "obligations": oblig + err if proved or verus_res else 0,
        "discharged": oblig,
        "checker_cmd": (verus_res or {}).get("cmd", "(not run)"),
        "trusted_base": tb,
        "obligation_unit": "Verus verification item (function body, loop-isolated query or lemma); each generates many SMT conditions",
        "functions_under_contract": [f"{f['key']} ({f['file']}:{f['line']}-{f['end_line']}, {f['loops']} loops)" for f in real_fns],
        "inlined_helpers": sorted({x for f in functions for x in f["inlined"]}),
        "back_end": "Verus/Z3",
        "solver_ms": (verus_res or {}).get("smt_ms"),
        "verus_wall_s": round((verus_res or {}).get("wall", 0), 2),
        "canaries": canary,
        "proved": proved,
        "undecided": undecided,
        "rejected": [f"{k}: {m}" for k, m, _ in rejected],
    }
    if rep:
        cov["bounded_replay"] = {"label": "bounded, on the real code with machine floats; not counted as proved",
                                 "evaluations": rep["evaluations"], "distinct": rep["distinct"], "by_clause": rep["groups"], "harness": rb.get("mode")}
        cov["evaluations"] = rep["evaluations"]
        cov["distinct_nontrivial"] = rep["distinct"]
        cov["rule"] = "structured random and boundary inputs per contract clause (small integers, dyadics, literals mined from the source, boundary sizes); distinct = distinct (clause, input) pairs"
        cov["samples"] = rep["samples"][:12]
    evidence = {
        "property": PID, "tier": TIER, "seed": SEED, "level": level_of(PID), "coverage": cov,
        "assumptions": ass, "wall_s": round(time.time() - T0, 2), "violations": violations,
    }
    json.dump(evidence, open(os.path.join(ev_dir, PID + ".json"), "w"), indent=1)
    if rep:
        for key, text in rep["known"]:
            desc = dict(known).get(key, "")
            say(f"KNOWN-FINDING: property={PID} {key}: {desc}")
    if lines:
        for l in lines:
            say(l)
        sys.exit(1)
    if rep is None:
        say("no answer: harness did not build")
        sys.exit(2)
    if proved:
        say(f"{PID}: {oblig} obligations discharged over {len(real_fns)} extracted functions; {rep['evaluations']} bounded replays agree ({time.time()-T0:.1f}s)")
    else:
        say(f"{PID}: NOT PROVED on this tree ({'; '.join(undecided)[:600]}); bounded stand-in on the real code passed {rep['evaluations']} evaluations")
    sys.exit(0)

def level_of(pid):
    try:
        m = json.load(open(os.path.join(V, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"

main()
