#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.json, the single source of the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/props.json"))
with open(V + "/properties.jsonl", "w") as f:
    for i in sorted(P):
        p = P[i]
        assert len(p["title"]) <= 80, i
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                        "hook_needed": None},
        }) + "\n")
checks = []
for i in sorted(P):
    p = P[i]
    if not p.get("claimed", True):
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
na = [{"property": i, "reason": P[i]["reason"]} for i in sorted(P) if not P[i].get("claimed", True)]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "Generated by tools/gen.py from props.json. Replay a violation with: python3 check.py --replay <id> <file>."},
          open(V + "/MANIFEST.json", "w"), indent=1)
