"""Bounded stand-in: drives the real code with generated cases and checks the property's statement on each.

usage: run.py PROPERTY [--seconds N] [--replay FILE]      (prints one JSON object)
A harness module x<nn>.py defines cases(rng, tier) -> iterator of JSON-able cases and
run(case) -> list of violation texts (each may be (key, text)).
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = ["/repo/src", os.path.dirname(HERE)]
import logging
import warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def main():
    prop = sys.argv[1]
    seconds = float(sys.argv[sys.argv.index("--seconds") + 1]) if "--seconds" in sys.argv else 10
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("harness.x" + prop[1:])
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            case = json.load(f)["input"]
        v = norm(mod.run(case))
        print(json.dumps({"violations": v}, indent=1))
        return 1 if v else 0
    rng = random.Random(seed)
    t0 = time.time()
    n, distinct, samples, viol, keys, err = 0, set(), [], [], set(), None
    try:
        for case in mod.cases(rng, tier):
            n += 1
            s = json.dumps(case, sort_keys=True, default=str)
            if s not in distinct:
                distinct.add(s)
                if len(samples) < 3:
                    samples.append(case)
            for key, text in norm(mod.run(case)):
                if key not in keys:
                    keys.add(key)
                    viol.append({"key": key, "what": text, "input": case})
            if time.time() - t0 > seconds or len(viol) >= 8:
                break
    except Exception as x:
        err = f"{type(x).__name__}: {x}\n" + traceback.format_exc()[-2500:]
    print(json.dumps({"evaluations": n, "distinct": len(distinct), "samples": samples, "violations": viol,
                      "error": err, "rule": getattr(mod, "RULE", "see harness"),
                      "wall_s": round(time.time() - t0, 2)}, default=str))
    return 0


def norm(v):
    out = []
    for x in v or []:
        out.append((x, x) if isinstance(x, str) else tuple(x))
    return out


if __name__ == "__main__":
    sys.exit(main())
