#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from catalog import PROPERTIES, NOT_APPLICABLE
root = os.path.join(os.path.dirname(__file__), "..")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPERTIES:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
na = {n["property"] for n in NOT_APPLICABLE}
manifest = {
    "version": 1,
    "setup_cmd": "bash run.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPERTIES if p["id"] not in na],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo: the harness uses ftml's public API only. All checks are one binary (harness/), built by run.sh from /repo's working tree.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
