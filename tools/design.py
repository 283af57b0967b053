#!/usr/bin/env python3
"""Generates DESIGN.md from tools/table.py, the last evidence files, and tools/design_{head,tail}.md."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, files=files, technique=technique, note=note, na=na, over=text, why=why))
exec(open(os.path.join(HERE, "tools", "table.py")).read())
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
na = [p for p in P if p["na"]]
for p in sorted((p for p in P if not p["na"]), key=lambda p: p["id"]):
    out.append(f"### {p['id']} {p['title']}\n\n")
    out.append(f"*Decided by* {p['technique']}. *For* {p['over']}. *Beyond tests:* {p['why']}.\n\n")
    e = os.path.join(HERE, "evidence", p["id"] + ".json")
    if os.path.exists(e):
        c = json.load(open(e))["coverage"]
        out.append("| rule | obligations | what it demands |\n|---|---|---|\n")
        for r, x in sorted(c["rules"].items()):
            out.append(f"| {r} | {len(x.get('constructs') or [])} | {x.get('rule') or x.get('text') or ''} |\n")
        out.append("\n")
    if p["note"]: out.append(f"Limits: {p['note']}\n\n")
    for n, m in seeds.get(p["id"], []):
        out.append(f"Planted: `{n}` ({m['what_it_breaks']}) - caught.\n\n" if not m.get("missed") else f"Planted: `{n}` ({m['what_it_breaks']}) - not caught: {m['missed']}\n\n")
out.append("## Not applicable\n\n")
for p in na:
    out.append(f"* **{p['id']} {p['title']}**: {p['na']}\n")
out.append("\n" + open(os.path.join(HERE, "tools", "design_tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
