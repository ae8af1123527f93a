#!/usr/bin/env python3
"""Writes MANIFEST.json out of what check.py has."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import CHECKS, NOTES, ROOT, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p,
                            "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                            "technique": NOTES[p][0], "level": "model_checking", "level_note": NOTES[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
m["notes"] = ("TLA+ specification in spec/, checked with TLC. No hooks in /repo: the public API shows all that is needed. "
              "Defects found are repaired in /repo by fix: commits, listed in known_findings.txt.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
