#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in PLAN:
        continue
    plan = PLAN[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 check.py " + p["id"],
        "thorough_cmd": "python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "TLA+ model checking (%s) and trace conformance (%s)" % (
            ", ".join(m.module for m in plan["models"]), ", ".join(r.trace for r in plan["runs"])),
        "level": "model_checking",
        "level_note": plan["note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "TLA+ with TLC; see DESIGN.md. Known findings and fixed defects: KNOWN_FINDINGS.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
