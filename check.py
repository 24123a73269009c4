#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on the engine as it is in /repo now.

Encodes /repo and the harness (MIR), explores every path of the property's entries symbolically (Z3 decides the path
conditions), replays every counterexample on the real engine under the real interpreter and reports what reproduces."""
import glob, json, os, re, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
V = vlib.V
T0 = time.time()
BUDGET = {"quick": 780, "thorough": 6 * 3600}

def known_tags(pid):
    """`known: property=P01 tag=[F1] description`: the tag is printed by the harness for exactly that input."""
    out = {}
    try: lines = open(V + "/known_findings.txt").read().splitlines()
    except FileNotFoundError: return out
    for l in lines:
        m = re.match(r"known: property=(\S+) tag=(\[\w+\]) (.*)", l)
        if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props = json.load(open(V + "/props.json"))
    p = props[pid]
    entries = p["entries"] + (p.get("thorough", []) if tier == "thorough" else [])
    try:
        with ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(f) for f in (vlib.build_symex, vlib.build_sym, vlib.build_native)]
            for f in fs: f.result()
    except vlib.BuildError as e:
        print(f"ERROR property={pid} {e}")
        return 2
    build_s = round(time.time() - T0, 1)
    tags = known_tags(pid)
    rdir = f"{V}/evidence/replays"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{pid}-*.json"): os.remove(f)
    found, known, problems, rows, fns = [], {}, [], [], set()
    validated = mismatched = fallback = 0
    samples = []
    tot = {k: 0 for k in ("paths_done", "paths_killed", "forks", "merges", "queries", "sat", "unsat", "cache_hits", "solver_ms", "path_checks", "steps", "domain_decisions")}
    complete = True
    def report(entry, vector, what, native, how, notes):
        path = f"{rdir}/{pid}-{len(found)}.json"
        json.dump({"property": pid, "entry": entry, "vector": vector, "what": what, "native": native, "found_by": how, "notes": notes, "replay_cmd": f"/verif/replay.py {path}"}, open(path, "w"), indent=1)
        found.append((path, what))
    for name in entries:
        e = "props::" + name
        left = BUDGET[tier] - (time.time() - T0)
        if left < 20: complete = False; problems.append(f"{name}: not explored, out of time"); continue
        m = vlib.run_entry(e, time_limit=int(left * 0.9), keep=4 if tier == "quick" else 16)
        for k in tot: tot[k] += m[k]
        fns |= set(m["functions"])
        with ThreadPoolExecutor(vlib.JOBS) as ex:
            # counterexamples: only what the real code reproduces is reported
            for v in m["violations"]:
                cs = v["cases"][:8]
                rs = list(ex.map(lambda c: vlib.replay(e, c["vector"]), cs))
                bad = [(c, r) for c, r in zip(cs, rs) if r[0] in ("property", "panic", "timeout", "crash")]
                if "MODEL-UNSUPPORTED" in v["what"]:
                    m["errors"].append({"what": v["what"], "count": v["count"], "backtrace": "", "vectors": [c["vector"] for c in cs]})
                    continue
                if not bad:
                    # the encoding is wrong there, the real code is not: no verdict for these paths
                    complete = False; mismatched += len(cs)
                    print(f"NOTE {name}: counterexample not reproduced by the real code: {v['what']} {cs[0]['vector'] if cs else ''}"); continue
                for c, r in bad:
                    t = next((t for t in tags if t in r[1]), None)
                    if t: known[t] = f"{tags[t]} (entry {name}, input {c['vector']})"
                    else: report(e, c["vector"], r[1] or v["what"], r[0], "solver", c["notes"]); break
            # paths that leave the encodable fragment: the input that leads there is replayed natively
            for x in m["errors"]:
                complete = False
                vs = x.get("vectors", [])
                rs = list(ex.map(lambda c: vlib.replay(e, c), vs[:16]))
                fallback += len(rs)
                print(f"NOTE {name}: {x['count']} path(s) not encodable: {x['what'][:300]}")
                if not vs: problems.append(f"{name}: {x['what'][:600]}")
                for c, r in zip(vs, rs):
                    if r[0] in ("property", "panic", "timeout", "crash"):
                        t = next((t for t in tags if t in r[1]), None)
                        if t: known[t] = f"{tags[t]} (entry {name}, input {c})"
                        else: report(e, c, r[1], r[0], "native run of an input on a path that could not be encoded", []); break
                    elif r[0] not in ("ok", "assume"): problems.append(f"{name}: {x['what'][:300]}")
            # the encoding is validated: witnesses of explored paths behave the same in the real code
            ws = sorted(m["witnesses"], key=lambda w: w["steps"])
            n = 16 if tier == "quick" else 64
            ws = ws[:: max(1, len(ws) // n)][: n + 4]
            rs = list(ex.map(lambda w: vlib.replay(e, w["vector"]), ws))
            for w, r in zip(ws, rs):
                if r[0] == "ok" and r[2] == w["notes"]: validated += 1
                elif r[0] in ("property", "panic"):
                    t = next((t for t in tags if t in r[1]), None)
                    if t: known[t] = f"{tags[t]} (entry {name}, input {w['vector']})"
                    else: report(e, w["vector"], r[1], r[0], "replay of the witness of an explored path", w["notes"])
                else: mismatched += 1; print(f"NOTE {name}: the real run of {w['vector']} differs from the symbolic one: {r[0]} {r[1][:200]}")
            if ws and len(samples) < 12: samples.append({"entry": name, "input": ws[len(ws) // 2]["vector"], "observed": [x[:400] for x in ws[len(ws) // 2]["notes"]][:2]})
        missing = [l for l in p.get("reach", {}).get(name, [1]) if str(l) not in m["reached"]]
        if m["timeout"]: complete = False; print(f"NOTE {name}: exploration stopped at the time limit")
        elif missing and not m["violations"] and not m["errors"]: problems.append(f"{name}: vacuous, labels {missing} not reached")
        rows.append({"entry": name, "paths": m["paths_done"], "infeasible_or_assumed_away": m["paths_killed"], "queries": m["queries"], "unsat": m["unsat"], "solver_ms": m["solver_ms"], "wall_s": m["wall_s"], "finished": not m["timeout"], "violating_paths": sum(v["count"] for v in m["violations"]), "unencodable_paths": sum(x["count"] for x in m["errors"]), "bounds": p.get("bounds", {}).get(name, "")})
        print(f"{name}: {m['paths_done']} paths, {m['queries']} queries, {m['solver_ms']} ms solver, {m['wall_s']} s" + (", TIMEOUT" if m["timeout"] else ""))
    if mismatched and mismatched > validated and not found: problems.append(f"{mismatched} witnesses differ between the symbolic and the real run")
    cov = {"states": tot["paths_done"], "transitions": tot["forks"] + tot["domain_decisions"] + tot["merges"], "traces_validated_against_impl": validated, "witness_mismatches": mismatched, "samples": samples or ["none"],
           "solver": {"engine": "z3", "queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "cache_hits": tot["cache_hits"], "time_ms": tot["solver_ms"], "complete_path_conditions_checked": tot["path_checks"]},
           "mir_steps": tot["steps"], "entries": rows, "functions_encoded": sorted(fns), "functions_encoded_count": len(fns), "exhaustive": complete and not problems,
           "unencodable_inputs_replayed_natively": fallback, "build_s": build_s, "problems": problems, "known_findings": sorted(known)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p.get("level", "model_checking"), "coverage": cov, "wall_s": round(time.time() - T0, 1), "violations": len(found),
          "assumptions": props["_assumptions"] + p.get("assumptions", [])}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    for t in sorted(known): print(f"KNOWN-FINDING: property={pid} {t} {known[t]}")
    if found:
        for path, what in found: print(f"  {what}")
        for path, what in found: print(f"VIOLATION property={pid} replay={path}")
        return 1
    if problems:
        for x in problems: print(f"ERROR property={pid} {x}")
        return 2
    print(f"OK property={pid} {tot['paths_done']} paths, {tot['queries']} solver queries, {validated} witnesses validated, {round(time.time() - T0)} s")
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception as e:
        import traceback; traceback.print_exc()
        print(f"ERROR {e}"); sys.exit(2)
