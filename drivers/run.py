"""Run the concrete driver of one property on the real code: prints DRIVER {json}"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seconds", type=float, default=5)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/dev/null")
    ap.add_argument("--replay")
    a = ap.parse_args()
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("d_" + a.prop.lower())
    t0 = time.time()
    out = {"evaluations": 0, "rule": getattr(mod, "RULE", "")}
    i = 0
    if a.replay:
        case = json.load(open(a.replay))
        r = mod.run(random.Random(case["seed"]), case["size"])
        print(r)
        return 1 if r else 0
    while time.time() - t0 < a.seconds:
        seed = f"{a.seed}:{i}"
        size = 1 + (i % 40)
        rng = random.Random(seed)
        viol = mod.run(rng, size)
        i += 1
        if viol:
            out["violation"] = {"seed": seed, "size": size, "what": viol,
                                "replay_cmd": f"/opt/venv/bin/python /verif/drivers/run.py {a.prop} --replay <this file>"}
            with open(a.out, "w") as f:
                json.dump({"property": a.prop, "seed": seed, "size": size, "what": viol, **({"trace": [repr(t) for t in mod.TRACE[-200:]]} if getattr(mod, "TRACE", None) else {})}, f, indent=1, default=str)
            break
        if getattr(mod, "MAX", None) and i >= mod.MAX:
            break
    out["evaluations"] = i
    out["secs"] = round(time.time() - t0, 2)
    print("DRIVER " + json.dumps(out, default=str))


try:
    sys.exit(main())
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(3)
