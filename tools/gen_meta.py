#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note="", technique="", claimed=True, reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe, note=level_note,
                  technique=technique, claimed=claimed, reason=reason))
exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}",
                 "thorough_cmd": f"./check {p['id']} --thorough",
                 "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                for p in P if p["claimed"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
     "notes": "TLA+/TLC; see DESIGN.md. No hooks in /repo: every observation uses the public API."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
