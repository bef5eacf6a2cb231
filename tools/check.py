#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

Builds the contracts with /repo's sources, lets the verifier (irv) discharge every obligation
of the property's contracts, replays counterexamples natively, writes evidence/PROPERTY.json.
Exit 0 held, 1 violation (VIOLATION line), 2 error of the check."""
import concurrent.futures, hashlib, json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import jobs as J

IRV = f"{V}/build/irv/release/irv"
LL = f"{V}/build/contracts.ll"
SO = f"{V}/build/libnative.so"
TRUST = [
    "rustc's translation of the crate to LLVM IR (the verifier reads the optimised IR of /repo's sources, std and rmath included)",
    "irv: IR semantics, memory model, term normalisation and sweeping (/verif/irv; cross-checked against native execution on every counterexample)",
    "z3 4.8.12 for the bit-vector queries irv does not decide itself",
    "the specifications in /verif/contracts/src/spec (transcribed from the standards, checked against the published test vectors)",
]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)

def native(entry, params, fixed, seed, trials, secs, timeout):
    try:
        r = sh(["python3", f"{V}/tools/native.py", SO, entry, json.dumps(params), fixed, str(seed), str(trials), str(secs)], timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"code": 124, "msg": "native run does not terminate", "inputs": {}}
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"code": r.returncode or 99, "msg": "native run crashed: " + r.stderr[-300:], "inputs": {}}

# a check answers within 900 s: no verification after VERIFY_BY, no search for inputs after SEARCH_BY
T0 = time.time()
VERIFY_BY, SEARCH_BY = T0 + 600, T0 + 780
FOUND = []  # confirmed violations; a few are enough

def run_job(a):
    j, seed, tier = a
    t0 = time.time()
    lim = j.get("time", 600)
    if len(FOUND) > 3:
        return j, {"skipped": True, "kind": "skipped", "fails": [], "code": 0, "ran": 0}
    if tier == "quick":
        lim = int(min(lim, VERIFY_BY - t0))
        if lim < 1:
            return j, {"error": "time limit of the check", "fails": [], "code": 0, "ran": 0, "wall": 0}
    j, o = run_job1(j, seed, lim, t0)
    if any(f.get("model") is not None for f in o.get("fails", [])) or o.get("code", 0) not in (0, 77):
        FOUND.append(j)
    return j, o

def run_job1(j, seed, lim, t0):
    if j.get("native"):
        # bounded stand-in: the contract executed on enumerated / pseudo-random inputs
        n = native(j["entry"], j["params"], "-", seed, j.get("trials", 1), lim, min(lim + 60, max(60, SEARCH_BY - time.time())))
        n["kind"] = "native"
        n["wall"] = time.time() - t0
        return j, n
    cmd = [IRV, LL, j["entry"]] + [str(p) for p in j["params"]] + ["--seed", str(seed), "--time", str(lim)] + j.get("opts", [])
    try:
        r = sh(cmd, timeout=lim + 20)
    except subprocess.TimeoutExpired:
        return j, {"error": "verifier time limit", "fails": [], "wall": time.time() - t0}
    try:
        o = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        o = {"error": f"verifier ended with {r.returncode}: {r.stderr[-500:]}", "fails": []}
    o["wall"] = time.time() - t0
    return j, o

def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    b = sh(["bash", f"{V}/tools/build.sh", "contracts"])
    if b.returncode != 0:
        sys.stderr.write(b.stdout + b.stderr)
        print("ERROR: build failed")
        return 2
    tb = time.time() - t0
    jl = J.jobs(pid, tier)
    ev_dir = f"{V}/evidence"
    os.makedirs(f"{ev_dir}/replay", exist_ok=True)
    known = []
    try:
        for l in open(f"{V}/KNOWN_FINDINGS"):
            l = l.strip()
            if l.startswith("known: property=" + pid + " "):
                known.append(l)
    except FileNotFoundError:
        pass
    results = []
    workers = int(os.environ.get("VERIF_JOBS", "8"))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for r in ex.map(run_job, [(j, seed, tier) for j in sorted(jl, key=lambda j: -j.get("cost", 1))]):
            results.append(r)
    errors, viol, knownhit = [], [], []
    agg = {}
    funcs = set()
    behind = {}
    contracts, bounded = {}, {}
    native_runs = skipped = 0
    for j, o in results:
        name = f'{j["entry"]}({",".join(map(str, j["params"]))})'
        if o.get("skipped") is True:
            skipped += 1
            continue
        if j.get("native"):
            if o.get("error"):
                errors.append(f"{name}: {o['error']}")
                continue
            native_runs += o.get("ran", 0)
            bounded.setdefault(j["entry"], [0, 0])
            bounded[j["entry"]][0] += 1
            bounded[j["entry"]][1] += o.get("ran", 0)
            if o["code"] not in (0, 77):
                viol.append((j, {"kind": "native", "msg": o.get("msg", ""), "model": o.get("inputs"), "confirmed": True, "detail": ""}, name))
            elif o.get("ran", 0) == o.get("skipped", 0):
                errors.append(f"{name}: no input met the precondition")
            continue
        for k, v in o.get("stats", {}).items():
            if k != "max_cone":
                agg[k] = agg.get(k, 0) + v
            else:
                agg[k] = max(agg.get(k, 0), v)
        funcs.update(f for f in o.get("functions", []) if "rcrypto" in f)
        for f, k in o.get("behind_contract", {}).items():
            behind[f] = behind.get(f, 0) + k
        c = contracts.setdefault(j["entry"], {"instances": 0, "obligations": 0, "wall": 0.0})
        c["instances"] += 1
        c["obligations"] += o.get("stats", {}).get("obligations", 0)
        c["wall"] = round(c["wall"] + o.get("wall", 0), 2)
        for f in o["fails"]:
            viol.append((j, f, name))
        if o.get("error"):
            # not decided by the verifier: an undischarged obligation
            viol.append((j, {"kind": "undecided", "msg": "verifier could not finish: " + o["error"], "model": None, "confirmed": False, "detail": o["error"]}, name))
        elif not o["fails"]:
            for k in j.get("reach", [0]):
                if not o.get("reached", {}).get(str(k)):
                    errors.append(f"{name}: vacuous (point {k} not reached)")
            if o["stats"]["obligations"] == 0:
                errors.append(f"{name}: no obligation")
    # failing obligations: find a concrete input for each distinct one
    out = []
    seen = set()
    for j, f, name in sorted(viol, key=lambda v: (v[1].get("model") is None, not v[1].get("confirmed"))):
        key = (j["entry"], f["kind"], f["msg"])
        if key in seen:
            continue
        if len(seen) > 12:
            break
        seen.add(key)
        txt = f'{name}: {f["kind"]}: {f["msg"]}'
        k = [l for l in known if any(p and p in txt for p in [l.split(" match=", 1)[1].split(" :: ")[0]])] if known else []
        if k:
            knownhit.append((k[0], txt))
            continue
        found = None
        n = len(out)
        fx = f"{ev_dir}/replay/{pid}-{n}.inputs"
        if f.get("model") is not None:
            with open(fx, "w") as h:
                for a, v in f["model"].items():
                    h.write(f"{a}={v}\n")
            r = native(j["entry"], j["params"], fx, seed, 1, 30, 60)
            if r["code"] not in (0, 77):
                found = r
        if not found:
            for fe in [j["entry"]] + j.get("falsify", []):
                if time.time() > SEARCH_BY:
                    break
                r = native(fe, j["params"], "-", seed, 2000, 20, 60)
                if r["code"] not in (0, 77):
                    found = r
                    break
        rp = f"{ev_dir}/replay/{pid}-{n}.json"
        rec = {"property": pid, "contract": j["entry"], "params": j["params"], "obligation": f["msg"], "kind": f["kind"], "verifier": f,
               "replay_cmd": f"python3 tools/native.py build/libnative.so {j['entry']} '{json.dumps(j['params'])}' {fx} {seed} 1 60"}
        if found:
            rec["native"] = found
            with open(fx, "w") as h:
                for a, v in found.get("inputs", {}).items():
                    h.write(f"{a}={v}\n")
        json.dump(rec, open(rp, "w"), indent=1)
        out.append((rp, found, txt))
    wall = time.time() - t0
    obl = agg.get("obligations", 0) + agg.get("panic_checks", 0)
    nviol = len(out)
    bad = sum(1 for j, f, n in viol if not j.get("native"))
    disch = max(0, agg.get("obligations", 0) - bad)
    level = J.META[pid]["level"]
    cov = {
        "obligations": agg.get("obligations", 0), "discharged": disch,
        "checker_cmd": f"build/irv/release/irv build/contracts.ll ENTRY PARAMS (see tools/jobs.py {pid})",
        "trusted_base": TRUST + J.META[pid].get("trust", []),
        "functions_under_contract": sorted(funcs), "contracts": contracts,
        "discharged_by": {"normalisation": agg.get("by_syntax", 0), "equivalence sweeping": agg.get("by_sweep", 0), "z3": agg.get("by_smt", 0), "polynomials": agg.get("by_poly", 0)},
        "calls_behind_contract": behind, "linear_arithmetic_queries": agg.get("lia_calls", 0),
        "lemmas_inside_sweeping": {"gf2-affine": agg.get("merges_affine", 0), "normal form": agg.get("merges_norm", 0), "exhaustive evaluation": agg.get("merges_exhaustive", 0), "z3": agg.get("merges_smt", 0)},
        "solver_seconds": round(agg.get("smt_time", 0), 2), "solver_calls": agg.get("smt_calls", 0), "sweep_seconds": round(agg.get("sweep_time", 0), 2),
        "paths": agg.get("paths", 0), "instructions": agg.get("instrs", 0), "terms": agg.get("terms", 0),
        "bounded_stand_ins": {k: {"instances": v[0], "native_runs": v[1]} for k, v in bounded.items()},
        "bounds": J.META[pid].get("bounds", ""), "instances_not_run_after_a_violation": skipped,
    }
    if level in ("exploration", "other"):
        cov["evaluations"] = native_runs
        cov["explanation"] = J.META[pid].get("bounds", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": J.META[pid].get("assume", []), "wall_s": round(wall, 2), "violations": nviol}
    json.dump(ev, open(f"{ev_dir}/{pid}.json", "w"), indent=1)
    for k, txt in knownhit:
        print(f"KNOWN-FINDING: property={pid} {k.split(' :: ')[-1]}")
    for rp, found, txt in out:
        print(f"# {txt}"[:600])
        print(f"VIOLATION property={pid} replay={rp}" + ("" if found else " no-failing-input-found"))
    if out:
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    print(f"{pid}: held; {len(results)} contract instances, {cov['obligations']} obligations discharged, {native_runs} native runs, build {tb:.1f}s, total {wall:.1f}s")
    return 0

sys.exit(main())
