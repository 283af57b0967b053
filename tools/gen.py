#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run from anywhere)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL_NOTE = ("Static decision over the type-checked program and its SSA form, rebuilt from /repo on every run: every "
  "obligation listed in the evidence is discharged for all paths of the analysed functions, whatever the inputs. "
  "Trusts go/types, x/tools/go/ssa and the stated contracts of external packages (standard library, nats, zerolog, go/packages); ")
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = False
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick",
                 "thorough_cmd": f"bash check.sh {p['id']} thorough", "technique": p["technique"], "level": "other",
                 "level_note": LEVEL_NOTE + p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "One analyser (checker/), one Go program; check.sh builds it from the committed files (vendored nothing: uses the module cache) and runs one property."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
