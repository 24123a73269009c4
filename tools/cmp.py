#!/usr/bin/env python3
"""tools/cmp.py ENTRY [-t secs] [-n count]: explore an entry and compare the witnesses of its paths with the real engine."""
import sys, os, difflib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vlib
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
tl = int(a[a.index("-t") + 1]) if "-t" in a else 300
n = int(a[a.index("-n") + 1]) if "-n" in a else 40
if "--nobuild" not in a:
    try: vlib.build_symex(); vlib.build_sym(); vlib.build_native()
    except vlib.BuildError as e: print(e); sys.exit(2)
for e in [x for x in a if x.startswith("props")]:
    m = vlib.run_entry(e, time_limit=tl, keep=n)
    print({k: v for k, v in m.items() if k not in ("functions", "violations", "errors", "witnesses", "log")}, "witnesses", len(m["witnesses"]))
    for x in m["errors"]: print("ERR", x["what"], x["count"]); print("    " + x["backtrace"][:2500])
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda w: vlib.replay(e, w["vector"]), m["witnesses"]))
    bad = 0
    for w, r in zip(m["witnesses"], rs):
        if r[0] != "ok" or r[2] != w["notes"]:
            bad += 1
            if bad <= 3:
                print("DIFF", w["vector"], r[:2])
                for p, q in zip(w["notes"], r[2]):
                    if p != q:
                        i = next((i for i in range(min(len(p), len(q))) if p[i] != q[i]), min(len(p), len(q)))
                        print("   model :", p[max(0, i - 200):i + 200]); print("   native:", q[max(0, i - 200):i + 200])
    print("witnesses compared", len(rs), "different", bad)
    for v in m["violations"]:
        print("VIOL", v["what"], v["count"])
        for c in v["cases"][:2]:
            print("    vector", c["vector"], "native:", vlib.replay(e, c["vector"])[:2])
            for x in c["notes"]: print("      |", x[:1500])
        print("    " + "\n    ".join(v["cases"][0]["backtrace"][:9]))
