#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
from describe import ABOUT, NA, LEVEL_NOTE
m = {"version": 1, "setup_cmd": "python3 build.py",
     "checks": [{"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p, "technique": a["tech"], "level": "exploration", "level_note": LEVEL_NOTE} for p, a in sorted(ABOUT.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: system and provider calls are redirected when the checks link their own copy of the objects. fix: commits in /repo and known findings are listed in known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
