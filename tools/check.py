#!/usr/bin/env python3
"""usage: check.py PROPERTY [--tier quick|thorough] [--entry NAME] [--keep]

Decides one property: regenerates the LLVM IR of the code under test from
/repo's working tree, runs every harness entry of the property through the
symbolic executor (symx, deciding step: Z3 verdicts over all values within the
stated bounds), replays counterexamples and a sample of path witnesses natively
against the real code, and writes evidence/<property>.json.

exit 0: held on everything explored; exit 1: VIOLATION; exit 2: no answer."""
import fcntl, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = f"{V}/.work"
sys.path.insert(0, f"{V}/tools")
import spec

T0 = time.time()


def die(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


def findings():
    """known-findings.jsonl: {"property","id","status":"open"|"fixed",...}"""
    out = {}
    p = f"{V}/known-findings.jsonl"
    if os.path.exists(p):
        for line in open(p):
            if line.strip():
                d = json.loads(line)
                out[(d["property"], d["id"])] = d
    return out


def build(h):
    t = time.time()
    r = subprocess.run(["bash", f"{V}/tools/build.sh", h], capture_output=True, text=True)
    if r.returncode:
        die(f"building harness {h} failed\n{(r.stdout + r.stderr)[-6000:]}")
    return time.time() - t


def native(h, entry, args, inputs, tag):
    os.makedirs(f"{W}/replay", exist_ok=True)
    f = f"{W}/replay/{tag}.in"
    with open(f, "w") as o:
        for n, v in inputs:
            o.write(f"{v} {n}\n")
    env = dict(os.environ, SYM_REPLAY=f, RUST_BACKTRACE="0")
    for i, a in enumerate(args):
        env[f"SYM_ARG{i}"] = str(a)
    try:
        r = subprocess.run([f"{W}/target/sym/harness-{h}", entry], env=env, capture_output=True, text=True, errors="replace", timeout=60)
        return r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--entry") + 1] if "--entry" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = spec.PROPS[prop]
    os.makedirs(W, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    lock = open(f"{W}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = [e for e in P["entries"] if tier == "thorough" or e.get("tier", "quick") == "quick"]
    if only:
        jobs = [e for e in jobs if e["entry"] == only]
    runs = []
    for e in jobs:
        alts = e.get("args_thorough", e.get("args", [[]])) if tier == "thorough" else e.get("args", [[]])
        for x in alts:
            runs.append((e, list(x) if isinstance(x, (list, tuple)) else [x]))
    # every run gets the tier as its last-resort argument 9
    bt = sum(build(h) for h in sorted({e.get("harness", "ir") for e, _ in runs}))
    budget = float(os.environ.get("VERIF_BUDGET", 800 if tier == "quick" else 6 * 3600))

    def one(k):
        e, args = runs[k]
        h = e.get("harness", "ir")
        full = (args + [0] * 10)[:9] + [1 if tier == "thorough" else 0]
        out = f"{W}/report-{prop}-{k}.json"
        if os.path.exists(out):
            os.unlink(out)
        left = max(5.0, budget - (time.time() - T0))
        cmd = [f"{W}/symx-target/release/symx", "--ll", f"{W}/{h}.ll", "--entry", e["entry"], "--out", out, "--timeout", str(min(left, e.get("timeout", 1e9))), "--max-steps", str(e.get("max_steps", 2_000_000_000)), "--query-timeout", str(e.get("query_ms", 120_000)), "--seed", str(seed), "--traces", str(e.get("traces", 12))]
        for x in full:
            cmd += ["--arg", str(x)]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=left + 120)
        except subprocess.TimeoutExpired:
            return k, None, "executor timeout"
        if not os.path.exists(out):
            return k, None, f"executor failed ({r.returncode}): {r.stderr[-1500:]}"
        d = json.load(open(out))
        os.unlink(out)
        d["_full"] = full
        # validation of the executor against the real code: replay path witnesses
        bad = []
        n = 0
        for i, t in enumerate(d["traces"]):
            rc, err = native(h, e["entry"], full, t["inputs"], f"{prop}-{k}-t{i}")
            ev = []
            for l in err.splitlines():
                if l.startswith("SYM-EVENT "):
                    l = l[10:]
                    if not (l.startswith("cover ") and l in ev):
                        ev.append(l)
            want = sorted(t["events"])
            ok = rc == (45 if t["panicked"] else 0) and sorted(ev) == want
            n += 1
            if not ok:
                bad.append({"inputs": t["inputs"], "expected": want, "panicked": t["panicked"], "native_rc": rc, "native": sorted(ev), "stderr": err[-800:]})
        d["_replayed"], d["_bad"] = n, bad
        return k, d, None

    order = sorted(range(len(runs)), key=lambda k: -runs[k][0].get("cost", 1))
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        res = sorted(ex.map(one, order), key=lambda r: r[0])

    problems, known, viol = [], [], []
    tot = dict(paths=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, case_splits=0, cache_hits=0, assumption_pruned=0)
    solver_s = 0.0
    replayed = 0
    checks, funcs, samples, per_entry, solver = {}, {}, [], [], ""
    kf = findings()
    covers = {}
    for k, d, err in res:
        e, args = runs[k]
        name = e["entry"] + (f"{args}" if args else "")
        if err:
            problems.append(f"{name}: {err}")
            continue
        for x in tot:
            tot[x] += d[x]
        solver_s += d["solver_s"]
        solver = d["solver"]
        replayed += d["_replayed"]
        for b in d["_bad"]:
            problems.append(f"{name}: native replay of a path witness disagrees with the symbolic run: {json.dumps(b)}")
        for r, n in d["inconclusive"].items():
            problems.append(f"{name}: inconclusive: {r} ({n})")
        if d["unknown"]:
            problems.append(f"{name}: {d['unknown']} solver queries without a verdict")
        for l, (n, ok) in d["checks"].items():
            c = checks.setdefault(l, [0, 0])
            c[0] += n
            c[1] += ok
        for l, n in d["covers"].items():
            if l.startswith("undecided"):
                problems.append(f"{name}: no verdict on {n} paths: {l}")
            covers[(e["entry"], l)] = covers.get((e["entry"], l), 0) + n
        for f, fn, n in d["functions"]:
            if f.startswith("crates/") and "core_arch" not in f:
                funcs[f"{f}: {fn}"] = max(n, funcs.get(f"{f}: {fn}", 0))
        per_entry.append({"entry": name, "paths": d["paths"], "instructions": d["steps"], "queries": d["queries"], "solver_s": d["solver_s"], "seconds": d["seconds"], "covers": d["covers"], "rejections": d["rejections"], "bounds": e.get("bounds", "")})
        for t in d["traces"][:1]:
            samples.append({"entry": name, "inputs": {n: v for n, v in t["inputs"][:24]}, "events": t["events"][:12], "panicked": t["panicked"]})
        for i, v in enumerate(d["violations"]):
            rc, err = native(e.get("harness", "ir"), e["entry"], d["_full"], v["inputs"], f"{prop}-{k}-v{i}")
            if v["known"] is not None:
                if rc not in (43,):
                    problems.append(f"{name}: counterexample for known finding {v['known']} does not reproduce natively (rc {rc}): {err[-500:]}")
                elif (prop, v["known"]) in kf and kf[(prop, v["known"])].get("status") == "open":
                    known.append((v["known"], v["label"], kf[(prop, v["known"])]))
                else:
                    viol.append((name, e, d, v, rc, err))
            elif rc in (42, 46, -11):
                viol.append((name, e, d, v, rc, err))
            else:
                problems.append(f"{name}: counterexample does not reproduce natively (rc {rc}): {v['label']} {v['detail']} {v['inputs']} {err[-500:]}")
    for e in jobs:
        for c in e.get("covers", []):
            if (e["entry"], c) not in covers:
                problems.append(f"{e['entry']}: reachability witness {c!r} was never reached (vacuous)")

    wall = time.time() - T0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": replayed,
            "samples": samples[:12],
            "explanation": "states = explored symbolic paths (each standing for all inputs that satisfy its path condition), transitions = LLVM instructions executed symbolically, traces_validated_against_impl = path witnesses replayed natively with identical observations",
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "bounds": P["bounds"], "outside_bounds": P.get("outside", ""),
            "solver": solver, "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_seconds": round(solver_s, 2),
            "query_cache_hits": tot["cache_hits"], "case_splits": tot["case_splits"],
            "assertions": {l: {"reached": c[0], "discharged": c[1]} for l, c in sorted(checks.items())},
            "entries": per_entry, "build_seconds": round(bt, 1),
            "known_findings": sorted({k for k, _, _ in known}), "problems": problems[:20],
            "exhaustive": not problems,
        },
        "assumptions": P.get("assumptions", []) + spec.ASSUMPTIONS,
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    with open(f"{V}/evidence/{prop}.json", "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    for k, l, d in sorted({(k, l, d["what"]) for k, l, d in known}):
        print(f"KNOWN-FINDING: property={prop} {k} ({l}): {d}")
    for i, (name, e, d, v, rc, err) in enumerate(viol):
        os.makedirs(f"{V}/evidence/replay", exist_ok=True)
        rp = f"{V}/evidence/replay/{prop}-{i}.json"
        json.dump({"property": prop, "harness": e.get("harness", "ir"), "entry": e["entry"], "args": d["_full"], "assertion": v["label"], "detail": v["detail"], "inputs": v["inputs"], "native_rc": rc, "native_stderr": err[-2000:], "rerun": f"tools/replay.py {rp}"}, open(rp, "w"), indent=1)
        print(f"  {name}: {v['label']}: {v['detail']} inputs={dict((n, x) for n, x in v['inputs'])} native={next((l for l in err.splitlines() if l.startswith(('SYM-V', 'thread ')) ), rc)}"[:1500])
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
    print(f"{prop} {tier}: paths={tot['paths']} instructions={tot['steps']} queries={tot['queries']} solver={solver_s:.1f}s build={bt:.0f}s wall={wall:.0f}s replayed={replayed} functions={len(funcs)} violations={len(viol)} known={len({k for k, _, _ in known})}")
    if viol:
        sys.exit(1)
    if problems:
        for p in problems[:30]:
            print(f"ERROR: {p}"[:3000])
        sys.exit(2)


main()
