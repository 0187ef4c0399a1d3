#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = [{"property": p, "quick_cmd": f"python3 run.py {p} --tier quick", "thorough_cmd": f"python3 run.py {p} --tier thorough",
           "evidence_file": f"evidence/{p}.json", "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["level_note"]}
          for p in props if p in CHECKS]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in CHECKS]
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the checks compile /repo/src/c unmodified with their own flags and link it against the exploration runtime in lib/."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
