#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
CONF = "TLA+ specification of the analysis (spec/Flow.tla) run by TLC on the MIR of real programs; every answer of the real code compared with it"
CLAIMED = json.load(open(f"{V}/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}",
                       "thorough_cmd": f"python3 check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": c.get("technique", CONF), "level": c.get("level", "model_checking"),
                       "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": "not claimed yet: its part of the specification is not bound to the code so far"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
