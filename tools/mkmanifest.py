#!/usr/bin/env python3
"""Rewrites MANIFEST.json: one check per checks/pNN.py (TECHNIQUE, NOTE), every other property not applicable."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REASONS = {}

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
        m = importlib.import_module("checks." + pid.lower())
        checks.append(dict(
            property=pid, quick_cmd="python3 check.py %s quick" % pid, thorough_cmd="python3 check.py %s thorough" % pid,
            evidence_file="evidence/%s.json" % pid, technique=m.TECHNIQUE, level="other", level_note=m.NOTE))
    else:
        na.append(dict(property=pid, reason=REASONS.get(pid, "check not built yet")))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
                   notes="Static analysis only. Known and fixed findings: known_findings.txt. Design: DESIGN.md."), fh, indent=1)
    fh.write("\n")
