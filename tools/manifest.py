#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import jobs as J
TECH = {"proof": "contracts discharged by a symbolic verifier over the compiled source (irv + z3)",
        "other": "contracts discharged by a symbolic verifier over the compiled source, bounded in lengths"}
NA = {}
try:
    NA = json.load(open(V + "/tools/not_applicable.json"))
except FileNotFoundError:
    pass
HOOKS = ["c1c296f1ecce5d75a3253a28784d6ec48a691aaa", "ac4676d2941934bc4b90fd3265cbfe5a2e0f93eb"]
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in J.META:
        m = J.META[p]
        checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"python3 tools/check.py {p}",
                       "technique": m.get("technique", TECH[m["level"]]), "level": m["level"], "level_note": m.get("note") or ("bounds: " + m.get("bounds", "none")),
                       "evidence_file": f"evidence/{p}.json"})
    else:
        na.append({"property": p, "reason": NA.get(p, "not yet built")})
json.dump({"version": 1, "setup_cmd": "bash tools/build.sh",
           "hooks": {"guard": "cfg rcrypto_verif", "enable": "RUSTFLAGS=\"--cfg rcrypto_verif\" (set by tools/build.sh for the harness crates only)", "source_commits": HOOKS},
           "checks": checks, "not_applicable": na,
           "notes": "Contracts in contracts/src, verifier in irv/, jobs per property in tools/jobs.py. VERIF_JOBS sets the number of parallel verifier processes (default 8)."},
          open(V + "/MANIFEST.json", "w"), indent=1)
