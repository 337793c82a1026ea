#!/opt/venv/bin/python
"""check.py Cxx [--tier quick|thorough] [--only SUBSTR] [--list] [--replay FILE] [-v]

Decides property Cxx on /repo's current working tree."""
import argparse
import fnmatch
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "7")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from symx import case as C
    from symx import world as W

    mod = importlib.import_module("checks." + a.prop.lower())
    try:
        W.load_crypten()
    except Exception as e:  # the tree does not even import: nothing can be decided
        print(f"ERROR cannot import the code under test: {e!r}")
        return 2
    cases = mod.cases(a.tier)
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1][:3]
    if a.list:
        print("\n".join(names))
        return 0
    if a.replay:
        d = json.load(open(a.replay))
        c = [c for c in cases if c.name == d["case"]][0]
        print(c.replay(d["values"], d["label"]))
        return 0
    if a.only:
        cases = [c for c in cases if a.only in c.name]
    known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == a.prop]
    budget = (700 if a.tier == "quick" else 20000)

    def log(r):
        if a.v or r["status"] not in ("held",):
            print(f"[{r['status']}] {r['case']} obl={r['obligations']} {r.get('wall_s')}s solver={r.get('solver', {}).get('solver_s')}", flush=True)
        if a.v and r["status"] != "held":
            for x in r["inconclusive"][:3]:
                print("    ", str(x)[:3000])

    results = C.run_isolated(cases, a.jobs, budget, log)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    viol, kf, inc, unrep = [], [], [], []
    for r in results:
        for v in r["violations"]:
            m = [k for k in known if fnmatch.fnmatchcase(r["case"], k["case"]) and fnmatch.fnmatchcase(v["label"], k.get("label", "*"))]
            if m:
                kf.append((m[0], r, v))
            else:
                p = os.path.join(HERE, "replays", f"{a.prop}-{len(viol)}.json")
                json.dump({"property": a.prop, "case": r["case"], "label": v["label"], "values": v["values"], "detail": v["detail"],
                           "symbolic": v["symbolic"], "rerun": f"/opt/venv/bin/python check.py {a.prop} --replay {p}"}, open(p, "w"), indent=1, default=str)
                viol.append((r, v, p))
        if r["status"] in ("inconclusive", "error"):
            inc.append(r)
            if r.get("unreproduced"):
                unrep.append(r)
    for k in {id(k): k for k, _, _ in kf}.values():
        print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    for r in inc:
        print(f"INCONCLUSIVE {r['case']}: {str(r['inconclusive'][0])[:300] if r['inconclusive'] else ''}")
    nob = sum(r["obligations"] for r in results)
    sol = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0}
    for r in results:
        for k in sol:
            sol[k] += r.get("solver", {}).get(k, 0)
    sol["solver_s"] = round(sol["solver_s"], 2)
    funcs = sorted({f for r in results for f in r["functions"]})
    held = [r for r in results if r["status"] == "held"]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": mod.EXPLAIN,
            "scenarios": len(results), "scenarios_held": len(held),
            "obligations": nob, "paths": sum(r["paths"] for r in results),
            "queries": sol, "messages_between_parties": sum(r["messages"] for r in results),
            "functions_encoded": funcs, "functions_encoded_count": len(funcs),
            "bounds": mod.BOUNDS,
            "inconclusive": [{"scenario": r["case"], "why": str(r["inconclusive"][:1])[:400]} for r in inc],
            "known_findings_seen": [{"scenario": r["case"], "label": v["label"]} for _, r, v in kf],
            "samples": [{k: r.get(k) for k in ("case", "status", "parties", "obligations", "paths", "messages", "nodes", "encode_s", "solver", "wall_s")} for r in (results[:: max(1, len(results) // 6)])[:6]],
            "slowest": [{"case": r["case"], "wall_s": r.get("wall_s")} for r in sorted(results, key=lambda r: -(r.get("wall_s") or 0))[:3]],
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    print(f"{a.prop} tier={a.tier}: {len(held)}/{len(results)} scenarios held, {nob} obligations, {sol['queries']} queries "
          f"({sol['unsat']} unsat, {sol['sat']} sat, {sol['unknown']} unknown), solver {sol['solver_s']} s, {len(funcs)} functions encoded, wall {ev['wall_s']} s")
    if viol:
        for r, v, p in viol[:10]:
            print(f"  {r['case']}: {v['label']}: {str(v['detail'])[:600]}")
        for r, v, p in viol[:10]:
            print(f"VIOLATION property={a.prop} replay={p}")
        return 1
    if not held or (len(inc) > 0.5 * len(results)):
        print("ERROR: most scenarios could not be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
