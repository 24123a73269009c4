#!/usr/bin/env python3
"""replay.py FILE: run a reported counterexample on the real engine under the real interpreter."""
import sys, os, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
d = json.load(open(sys.argv[1]))
vlib.build_native()
r = vlib.replay(d["entry"], d["vector"])
print(d["entry"], d["vector"], r[0], r[1])
for n in r[2]: print("  ", n)
sys.exit(1 if r[0] in ("property", "panic", "crash", "timeout") else 0)
