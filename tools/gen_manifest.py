#!/usr/bin/env python3
"""Writes MANIFEST.json from table.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = {"version": 1,
 "setup_cmd": "python3 tools/setup.py",
 "checks": [{"property": k, "quick_cmd": "VERIF_TIER=quick python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
   "evidence_file": "evidence/%s.json" % k, "technique": d["technique"], "level": d["level"], "level_note": d["note"]} for k, d in sorted(table.P.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: all monitors sit in the callers' own implementations of goost's abstract classes, in the allocator, or in the compiler's instrumentation. See DESIGN.md; findings are in known_findings.txt."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
