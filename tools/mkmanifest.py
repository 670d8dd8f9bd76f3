#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl (run by hand, result committed)."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]
na = json.load(open(H + "/not_applicable.json")) if os.path.exists(H + "/not_applicable.json") else []
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "PRINTEMPS_VERIF_HOOK", "enable": "drivers that need it define PRINTEMPS_VERIF_HOOK before including printemps.h and add -I /verif/harness",
               "source_commits": hooks},
     "checks": [], "not_applicable": na}
for p in props:
    if p["id"] not in PLAN:
        assert any(x["property"] == p["id"] for x in na), p["id"]
        continue
    s = PLAN[p["id"]]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": s["technique"],
                        "level": "exploration", "level_note": s["note"]})
assert set(PLAN) <= {p["id"] for p in props}, set(PLAN) - {p["id"] for p in props}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks")
