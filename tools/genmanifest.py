#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS, TECHNIQUE
checks = []
for i in sorted(CHECKS):
    t, note = TECHNIQUE[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/check.py %s quick" % i,
        "thorough_cmd": "python3 bin/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing: " + t,
        "level": CHECKS[i].get("level", "exploration"),
        "level_note": note,
    })
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert sorted(ids) == sorted(CHECKS), (ids, sorted(CHECKS))
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the harness compiles /repo/src itself. VERIF_SEED selects the generated cases; every failing case is shrunk and written to evidence/replays, and `python3 bin/check.py <id> quick --replay FILE` replays it."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
