#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and props.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(V + "/props.json"))
allp = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
na = json.load(open(V + "/not_applicable.json"))
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": na}
for p in allp:
    i = p["id"]
    if i not in props: assert any(x["property"] == i for x in na), i; continue
    c = {"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": "symbolic execution of the real MIR (engine, pyo3, syn, std) with Z3 over modelled Python modules; counterexamples replayed natively", "level": "model_checking", "level_note": props[i].get("note", props["_note"])}
    m["checks"].append(c)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
