#!/usr/bin/env python3
"""mutate_one.py SCRATCH PROP...: builds the harness against /repo and runs one small shard of each property until one fails."""
import os, sys, json, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
scratch, props = sys.argv[1], sys.argv[2:]
check.DEADLINE["quick"] = 120
try:
    bins = check.build(scratch, ["plain"])
except check.NoAnswer as e:
    print("nobuild"); sys.exit()
seed = int(os.environ.get("VERIF_SEED", "7"))
n = os.environ.get("CHECKS", "120")
for p in props:
    for v in {"C13": ["nocolor"], "C17": ["plain", "ci"], "C04": ["plain", "updenv"]}.get(p, ["plain"]):
        if p == "C06": continue
        for w in ("out", "work"):
            shutil.rmtree(os.path.join(scratch, "%s-%s-0" % (w, v)), ignore_errors=True)
        r = check.run_shard(scratch, bins["plain"], p, "quick", seed, v, 0, 1, {"VERIF_CHECKS": n, "VERIF_NOSHRINK": "1"})
        f = (r.get("result") or {}).get("failure")
        if f or r.get("died"):
            print("killed", p, v, (f or {}).get("aspect"), json.dumps((f or {"error": r.get("log", "")[-300:]})["error"][:200])); sys.exit()
        if r.get("infra"):
            print("infra", p, v, json.dumps(r["infra"][:300])); sys.exit()
print("survived")
