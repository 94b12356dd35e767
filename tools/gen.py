#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and sim/props.json from tools/props.py (the committed outputs are the interface)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, HOOKS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"], "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
m = {"version": 1, "setup_cmd": "python3 sim/setup.py", "hooks": HOOKS, "checks": [], "not_applicable": [], "notes": NOTES}
sp = {}
for p in PROPS:
    c = p.get("check")
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 sim/check.py {p['id']} --tier quick", "thorough_cmd": f"python3 sim/check.py {p['id']} --tier thorough",
                        "evidence_file": f"evidence/{p['id']}.json", "technique": c.get("technique", "deterministic simulation with fault injection (seeded schedule and fault search, replayable tapes)"),
                        "level": "exploration", "level_note": c["note"]})
    sp[p["id"]] = {k: c[k] for k in ("parts", "rule", "state_measure", "assumptions") if k in c}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump(sp, open(V + "/sim/props.json", "w"), indent=1)
