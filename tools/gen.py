#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = rules/<id>.py exists)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/litdata/streaming/"
PR = "src/litdata/processing/"
U = "src/litdata/utilities/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None):
    return dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                why=" ".join(why.split()), files=files, mech=mech, state=state, observe=observe, na=na, note=note)


PROPS = []
exec(open(os.path.join(HERE, "tools", "props.txt")).read())

assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
        continue
    if not os.path.exists(os.path.join(HERE, "rules", p["id"].lower() + ".py")):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": "static analysis: gated value numbering and typestate over the syntax trees of /repo/src/litdata (no execution)",
        "level": "other",
        "level_note": " ".join((p["note"] or "Every instance of the rules at every construct of the current source is decided; the rules are listed in DESIGN.md and in the evidence.").split()),
    })
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa rules check.py", "checks": checks, "not_applicable": na,
           "notes": "Checks read /repo/src/litdata only; nothing of litdata is imported or executed. Known findings and repaired defects: known_findings.json."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
