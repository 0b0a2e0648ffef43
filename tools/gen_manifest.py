#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from checks/meta.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.meta import META
NA = []
man = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py",
       "checks": [{"property": p, "quick_cmd": f"python3-vt checks/run.py {p} --tier quick", "thorough_cmd": f"python3-vt checks/run.py {p} --tier thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": m["technique"], "level": m["level"], "level_note": m["note"]}
                  for p, m in META.items() if not m.get("na")],
       "not_applicable": [{"property": p, "reason": m["na"]} for p, m in META.items() if m.get("na")],
       "notes": "No hooks in /repo: the contracts live in /verif/contracts and are bound to the functions of /repo by name; the verifier reads /repo's source on every run."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
