#!/usr/bin/env python3
"""writes MANIFEST.json from tatv/table.py"""
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from tatv.table import T, NA
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "none", "enable": "no hooks were added to /repo", "source_commits": []},
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        }
        for p in T.values()
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "see DESIGN.md",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
