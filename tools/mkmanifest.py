#!/usr/bin/env python3
"""Write MANIFEST.json from harness/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from table import TABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in TABLE:
        na.append({"property": i, "reason": "check not built yet"})
        continue
    t = TABLE[i]
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": t["technique"], "level": "exploration", "level_note": t["level_note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks,
           "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
