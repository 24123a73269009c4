#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, properties.jsonl, props.json, tools/costs.json and seeded/."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/props.json")); costs = json.load(open(V + "/tools/costs.json"))
missed = json.load(open(V + "/tools/missed.json"))
o = open(V + "/tools/design_head.md").read()
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); q = props.get(p["id"])
    if not q: continue
    c = costs.get(p["id"], {})
    o += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Anchors:* " + ", ".join("`" + f + "`" for f in p["anchors"]["files"]) + ".\n"
    o += f"*Why tests cannot settle it:* {p['why_tests_cant']}\n"
    if q.get("assumptions"): o += "*Assumed besides the model:* " + "; ".join(q["assumptions"]) + ".\n"
    o += "\n| entry | bounds (every value is decided) |\n|---|---|\n"
    for e in q["entries"] + q.get("thorough", []):
        b = q.get("bounds", {}).get(e, "").replace("|", "\\|")
        o += f"| `{e}`{'' if e in q['entries'] else ' (thorough)'} | {b} |\n"
    if c: o += f"\nQuick: {c['paths']} paths, {c['queries']} solver queries, {c['s']} s.\n"
o += open(V + "/tools/design_tail.md").read()
o += "\n| bug | property | what it needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    o += f"| {i} | {m['property']} | {m['needs'].replace('|', chr(92) + '|')} | {missed.get(i, m['property'])} |\n"
open(V + "/DESIGN.md", "w").write(o)
