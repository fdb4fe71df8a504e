#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=c["technique"] or "runtime monitoring", level=c["level"],
            level_note=c["note"] or "Every explored execution is decided by the monitor; nothing is claimed about executions not explored. " + ("Assumes: " + "; ".join(c["assumptions"]) + "." if c["assumptions"] else "")))
    else: na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks were needed in /repo: every monitor observes through the public API, an interposed system call, or a stand-in for an external interface. Known findings and repairs: known_findings.txt.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
