#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, "checks"), os.path.join(H, "lib")]
sys.dont_write_bytecode = True
from registry import CHECKS, NOTES
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": "TLA+ specification: TLC design check, TLC-generated behaviours replayed into the code, TLC trace acceptance",
                            "level": "model_checking", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet (work in progress)"})
m["notes"] = "No hooks in /repo: drivers in harness/ are compiled against /repo/src on every run and use only the public API. See DESIGN.md."
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
