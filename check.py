#!/usr/bin/env python3
"""check.py PROPERTY: verify every contract of the property against /repo's current source.

exit 0: held on everything explored; exit 1: VIOLATION line.  Run with python3-vt (z3).
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, "/repo/src"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)


def _work(i):
    from pyvc import verify as V
    return V.safe_verify(CS[i])


CS = []


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 500 if tier == "quick" else 3000
    os.environ.setdefault("PYVC_PROVE_MS", "15000" if tier == "quick" else "60000")
    ex_secs = (15 if tier == "quick" else 240)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
    hx = None
    if os.path.exists(os.path.join(HERE, "harness", f"x{prop[1:]}.py")):
        hx = subprocess.Popen(["/opt/venv/bin/python", os.path.join(HERE, "harness", "run.py"), prop,
                               "--seconds", str(ex_secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              env=env, cwd=HERE)
    results, load_err = [], None
    try:
        from pyvc import verify as V
        importlib.import_module(f"contracts.c{prop[1:]}")
        CS.extend(V.REGISTRY.get(prop, []))
    except BaseException as x:
        load_err = f"{type(x).__name__}: {x}"
    if CS:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(8, len(CS)), maxtasksperchild=4) as pool:
            hs = [(c, pool.apply_async(_work, (i,))) for i, c in enumerate(CS)]
            for c, h in hs:
                try:
                    results.append(h.get(max(1, limit - (time.time() - t0))))
                except mp.TimeoutError:
                    results.append({"contract": c.id, "target": c.target, "status": "undecided",
                                    "reason": "time limit of the check", "obligations": {}, "failed": [], "covers": {},
                                    "inlined": [], "trusted": [], "used_contracts": [], "targets": [], "loops": 0,
                                    "wall_s": 0, "solver_s": 0, "paths": 0})
            pool.terminate()
    ex = None
    if hx is not None:
        try:
            out, errtxt = hx.communicate(timeout=ex_secs + 120)
            ex = json.loads(out.strip().split("\n")[-1])
        except Exception as x:
            hx.kill()
            ex = {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "error": f"harness: {x}", "rule": ""}
    return report(prop, tier, seed, t0, results, ex, load_err)


def known_keys(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if len(w) >= 3 and w[0] == "known:" and w[1] == f"property={prop}" and w[2].startswith("key="):
                out[w[2][4:]] = w[3] if len(w) > 3 else ""
    return out


def report(prop, tier, seed, t0, results, ex, load_err):
    ev = os.path.join(HERE, "evidence")
    rp = os.path.join(ev, "replay")
    os.makedirs(rp, exist_ok=True)
    known = known_keys(prop)
    proved = [r for r in results if r["status"] == "proved"]
    failed = [r for r in results if r["status"] == "failed"]
    undec = [r for r in results if r["status"] == "undecided"]
    viol = []
    seen_known = []
    if ex:
        for v in ex["violations"]:
            if v["key"] in known:
                seen_known.append(v["key"])
                continue
            viol.append(v)
    fail_known = []
    real_failed = []
    for r in failed:
        rest = [f for f in r["failed"] if f"{r['contract']}:{f['obligation']}" not in known]
        fail_known += [f"{r['contract']}:{f['obligation']}" for f in r["failed"] if f not in rest]
        if rest:
            real_failed.append(dict(r, failed=rest))
    for k in sorted(set(seen_known + fail_known)):
        print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
    code = 0
    lines = []
    path = os.path.join(rp, f"{prop}.json")
    if viol or real_failed:
        code = 1
        v = viol[0] if viol else None
        rec = {"property": prop, "failed_obligations": [
            {"contract": r["contract"], "target": r["target"], "failed": r["failed"],
             "unrolled": r.get("unrolled")} for r in real_failed]}
        if v:
            rec.update({"input": v["input"], "what": v["what"], "all_inputs": viol,
                        "replay_cmd": f"/opt/venv/bin/python /verif/harness/run.py {prop} --replay {path}"})
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        for r in real_failed:
            for f_ in r["failed"]:
                print(f"failed obligation: {r['contract']}: {f_['obligation']}   ({r['target']})")
        for x in viol:
            print(f"failing input on the real code: {x['what']}")
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if v else " no-failing-input-found"))
    nob = sum(len(r["obligations"]) for r in results)
    ndis = sum(1 for r in results for o in r["obligations"].values() if o["ok"] == o["paths"])
    backends = {}
    for r in results:
        for o in r["obligations"].values():
            for k, n in o["by"].items():
                backends[k] = backends.get(k, 0) + n
    trusted = sorted({t for r in results for t in r["trusted"]})
    used = sorted({t for r in results for t in r["used_contracts"]})
    level = LEVEL.get(prop, "proof")
    note = []
    if undec or load_err:
        note.append("some contracts are undecided on this tree: the bounded run-time check stood in for them")
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": f"python3-vt {HERE}/check.py {prop}",
        "trusted_base": ["pyvc (this repository's VC generator and its model of Python's built-ins)",
                         "z3 5.3.2 (cvc5 1.1.2 as fallback)", "integers are mathematical (Python's are)"] + trusted,
        "contracts_used_at_call_sites": used,
        "functions_under_contract": sorted({t for r in results for t in r["targets"]}),
        "functions_executed_from_source": sorted({t for r in results for t in r["inlined"]}),
        "path_obligations": sum(o["paths"] for r in results for o in r["obligations"].values()),
        "discharged_by": backends,
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "paths": sum(r["paths"] for r in results),
        "contracts": [{"contract": r["contract"], "target": r["target"], "status": r["status"],
                       "reason": r["reason"], "obligations": sorted(r["obligations"]), "paths": r["paths"],
                       "loops_cut": r["loops"], "covers": r["covers"], "wall_s": r["wall_s"]} for r in results],
        "undecided": [f"{r['contract']}: {r['reason']}" for r in undec] + ([load_err] if load_err else []),
        "failed": [f"{r['contract']}: {f['obligation']}" for r in failed for f in r["failed"]],
    }
    if ex:
        cov.update({"evaluations": ex["evaluations"], "distinct_nontrivial": ex["distinct"], "rule": ex["rule"],
                    "samples": ex["samples"], "bounded_standin_error": ex.get("error")})
    if note:
        cov["note"] = note
    if level == "other":
        cov["explanation"] = "contracts discharged deductively for the functions listed; the rest bounded"
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": trusted + [f"assumed contract: {u}" for u in used],
           "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(real_failed)}
    with open(os.path.join(ev, f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)
    print(f"{prop}: {len(proved)}/{len(results)} contracts proved, {ndis}/{nob} obligations discharged, "
          f"{cov['path_obligations']} verification conditions; bounded run: {ex['evaluations'] if ex else 0} cases; "
          f"{doc['wall_s']} s")
    for u in cov["undecided"]:
        print("undecided:", u)
    if ex and ex.get("error"):
        print("bounded run stopped:", ex["error"])
    for x in lines:
        print(x)
    if not results and not (ex and ex["evaluations"]):
        # nothing was decided at all
        print("nothing could be checked", load_err)
        return 2
    return code


LEVEL = {}
try:
    _m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    LEVEL = {c["property"]: c["level"] for c in _m["checks"]}
except Exception:
    pass

if __name__ == "__main__":
    sys.exit(main())
