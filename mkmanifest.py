#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/config.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "checks"))
from config import CHECKS, NOT_APPLICABLE
checks = []
for p, c in sorted(CHECKS.items()):
    e = {"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"python3 run.py {p} thorough",
         "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]}
    checks.append(e)
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": NOT_APPLICABLE},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
