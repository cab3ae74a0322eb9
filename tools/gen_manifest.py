#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl (run by hand)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "property-based testing against a reference model"),
                       "level": "exploration",
                       "level_note": c.get("note", "Generated-input search against an independent oracle in the harness; "
                                           "absence of a counterexample in the cases counted in the evidence, not a proof.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "Checks build the harness from /repo's working tree into a scratch directory on every run; nothing is cached. "
              "Replay: python3 check.py <ID> --replay replays/<ID>.json"}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
