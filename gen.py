#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
import props
import registry

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.P:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                         "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.P:
    if p["na"]:
        assert p["id"] not in registry.PROPS
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in registry.PROPS, p["id"]
    assert registry.PROPS[p["id"]].get("level", "proof") == p["level"], p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                   "thorough_cmd": "python3 check.py " + p["id"], "technique": p["technique"], "level": p["level"],
                   "level_note": p["note"]})
for r in registry.PROPS:
    assert any(p["id"] == r for p in props.P), r
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks: the analyses read /repo's sources as they are. Known findings: known_findings.json. Design: DESIGN.md."}, f, indent=1)
    f.write("\n")
