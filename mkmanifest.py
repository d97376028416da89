#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from checks import CHECKS
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check yet: the monitor for this property is still being built"))
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
                       technique=c.get("technique", "runtime monitoring"), level=c.get("level", "exploration"),
                       level_note=c.get("note", "held on the executions explored; says nothing about executions the workload does not produce")))
json.dump(dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\"", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: blocking primitives, time and file-system calls are interposed at link time."),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "without")
