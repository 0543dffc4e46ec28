#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "disjunctive abstract interpretation over MIR"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level="other", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, na=na))


exec(open(os.path.join(V, "tools", "table.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m["notes"] = "Every check re-dumps the type-checked MIR of /repo's current tree with the rustc_private driver in driver/ (cached by source hash) and decides its property on those facts; no code of /repo is executed. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
