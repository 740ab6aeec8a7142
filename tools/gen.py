#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json-like python data (props.py)."""
import json, os
from props import PROPS, LEVEL_NOTE
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na, lines = [], [], []
ids = set()
for p in sorted(PROPS, key=lambda p: p["id"]):
    assert p["id"] not in ids, p["id"]
    ids.add(p["id"])
    assert len(p["title"]) <= 80, p["id"]
    q = {"over": p["over"], "text": p["forall"]}
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"):
        a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
    if p.get("observe"):
        a["observe_at"] = p["observe"]
    a["hook_needed"] = None
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": q,
                             "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False))
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"], "thorough_cmd": "./run.sh " + p["id"] + " -tier thorough",
                       "technique": p["tech"], "level": "other", "level_note": p["note"] + " " + LEVEL_NOTE})
open(root + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: every check loads the current source of /repo with go/packages, builds SSA, and decides rules over it; nothing of /repo is executed. No hooks."}
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
print(len(checks), "claimed", len(na), "not applicable")
