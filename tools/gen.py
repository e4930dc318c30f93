#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py; a property is claimed when checks/<id>.py exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
NA = {}
try:
    from props import NA
except ImportError:
    pass
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                   "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(root, "checks", p["id"] + ".py")) and p["id"] not in NA:
        checks.append({"property": p["id"],
                       "quick_cmd": f"./check {p['id']} --tier quick",
                       "thorough_cmd": f"./check {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"],
                       "level": "exploration",
                       "level_note": p["note"] or "Searches generated cases against an explicit oracle; finds violations inside the generated domain, never proves absence. Trusts the oracle in checks/%s.py and the shared fake engine in lib/." % p["id"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
