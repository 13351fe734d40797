#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props/*.py (one source for both)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA

CHECKED = [p for p in PROPS if p["id"] not in NA]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash run.sh --build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh %s quick" % p["id"],
        "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "level": "other",
        "level_note": p.get("note", "Decided from the type-checked SSA form of the current tree by abstract interpretation; no execution. See DESIGN.md."),
        "technique": p["technique"],
    } for p in CHECKED],
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in PROPS if p["id"] in NA],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(CHECKED), "checks,", len(NA), "not applicable")
