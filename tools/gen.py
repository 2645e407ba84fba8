#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one table for both)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES
lines, checks, na = [], [], []
for p in PROPS:
    lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["for_all"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "state": p.get("state", []),
                              "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                              "observe_at": p["observe"], "hook_needed": False}})
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in NOT_APPLICABLE:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 /verif/run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % p["id"],
                   "evidence_file": "/verif/evidence/%s.json" % p["id"],
                   "technique": "bounded symbolic execution of the C sources with CBMC (SAT), counterexamples replayed natively",
                   "level": "model_checking", "level_note": p["level_note"]})
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    f.writelines(json.dumps(l) + "\n" for l in lines)
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "VP_HOOKS", "enable": "not needed: no hooks were added to /repo", "source_commits": []},
               "checks": checks, "not_applicable": na, "notes": NOTES}, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
