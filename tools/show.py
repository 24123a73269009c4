#!/usr/bin/env python3
"""tools/show.py ENTRY [symex options]: explore one entry and print the report."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
args = sys.argv[1:]
if "--nobuild" in args: args.remove("--nobuild")
else:
    try: vlib.build_symex(); vlib.build_sym()
    except vlib.BuildError as e: print(e); sys.exit(2)
tl = 300
if "-t" in args: i = args.index("-t"); tl = int(args[i + 1]); del args[i:i + 2]
w = 2
if "-w" in args: i = args.index("-w"); w = int(args[i + 1]); del args[i:i + 2]
for e in [a for a in args if a.startswith("props") or a.startswith("selftest")]:
    m = vlib.run_entry(e, time_limit=tl, extra=[a for a in args if not (a.startswith("props") or a.startswith("selftest"))], keep=2)
    print({k: v for k, v in m.items() if k not in ("functions", "violations", "errors", "witnesses", "log")})
    if "PROF" in m["log"] or "FORK" in m["log"]: print(m["log"])
    for v in m["violations"]:
        print("VIOL", v["what"], v["count"])
        for c in v["cases"][:2]:
            print("    vector", c["vector"])
            for n in c["notes"]: print("      |", n[:1500])
        print("    " + "\n    ".join(c["backtrace"][:9]))
    for x in m["errors"]: print("ERR", x["what"], x["count"]); print("    " + x["backtrace"][:2500])
    for x in m["witnesses"][:w]:
        print("WIT", x["vector"], x["steps"])
        for n in x["notes"]: print("     ", n[:3000])
