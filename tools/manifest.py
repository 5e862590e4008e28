#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and the properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
sys.dont_write_bytecode = True
import check_table
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = check_table.NOT_APPLICABLE
checks = [{"property": p["id"], "quick_cmd": "python3 checks/run.py %s quick" % p["id"], "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
           "technique": check_table.TECH[p["id"]][0], "level": "exploration", "level_note": check_table.TECH[p["id"]][1]} for p in props if p["id"] in check_table.TABLE]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "its check is not built yet")} for p in props if p["id"] not in check_table.TABLE]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
