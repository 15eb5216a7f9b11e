#!/opt/veriftools/pyvenv/bin/python
"""Check one property: python3-vt check.py <id> [--tier quick|thorough]

1. parse /repo's current source, generate the obligations of every unit of the property and discharge them (pool of processes);
2. run the property's concrete driver on the real code: a small bounded cross-check when every obligation is discharged, a longer
   search for a failing input when one is not;
3. write evidence/<id>.json, replay files, and decide.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

from specs.registry import PROPS, COMMON_TRUSTED  # noqa: E402

UNITS = []


def _child(i, conn):
    from vc.spec import run_unit
    # a solver that crashes prints its own words; they are not the check's verdict
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    r = run_unit(UNITS[i], on_fail=lambda o: conn.send(("fail", o)))
    conn.send(("done", r))
    conn.close()


def run_units(order, deadline, jobs=8):
    """every unit in a process of its own; one that dies or runs past the deadline keeps the obligations already known to fail"""
    from vc.spec import UnitResult
    ctx = mp.get_context("fork")
    todo, live, res = list(order), {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, [], time.time())
        for i in list(live):
            p, a, fails, t0 = live[i]
            late = time.time() > deadline
            end = None
            try:
                while a.poll(0.01 if not late else 0):
                    kind, v = a.recv()
                    if kind == "fail" and v is None:
                        fails.clear()
                    elif kind == "fail":
                        fails.append(v)
                    else:
                        end = v
                        break
            except (EOFError, OSError):
                end = "died"
            if end is None and late:
                p.kill()
                end = "ran out of time"
            if end is None:
                continue
            if isinstance(end, str):
                r = UnitResult(UNITS[i].name)
                r.functions = UNITS[i].functions
                r.obs, r.secs = fails, time.time() - t0
                r.error = f"the verifier {end} on this unit"
                end = r
            p.join(5)
            if p.is_alive():
                p.kill()
            a.close()
            res[i] = end
            del live[i]
    return res


def discharge(prop, cfg, tier):
    """-> (results, errors)"""
    from vc.program import Program
    from vc.spec import UnitResult, Unit
    errors = []
    try:
        prog = Program(REPO)
    except SyntaxError as e:
        r = UnitResult("parsing")
        r.error = f"source does not parse: {e}"
        return [r]
    out = []
    keep = []
    for modname, pat, *only in cfg["units"]:
        try:
            mod = importlib.import_module("specs." + modname)
            for u in mod.units(prog):
                if pat is None or pat(u.name):
                    u.keep = only[0] if only else None
                    UNITS.append(u)
                    keep.append(only[0] if only else None)
        except Exception as e:
            r = UnitResult(f"specs.{modname}")
            r.error = f"the contract cannot be attached to the source: {type(e).__name__}: {e}"
            out.append(r)
    n = len(UNITS)
    if tier == "thorough":
        from vc import core
        core.Explorer.RL_PROVE *= 5
        core.Explorer.RL_FEAS *= 4
    if n:
        order = list(range(n))
        order.sort(key=lambda i: -getattr(UNITS[i], 'cost', 0))
        res = run_units(order, time.time() + (520 if tier == "quick" else 650))
        for i in range(n):
            r = res[i]
            if keep[i] is not None:
                # a unit shared between properties: only the obligations that make up this property count for it
                r.obs = [o for o in r.obs if keep[i](o[0])]
                if not r.obs and not r.error:
                    r.error = "no obligation of this property was generated"
            out.append(r)
    return out


def again(results, deadline):
    from vc import core
    todo = [i for i in range(len(UNITS)) if any(r.name == UNITS[i].name and (r.error is None) and any(not o[1] for o in r.obs) for r in results)]
    if not todo:
        return results
    core.Explorer.SEED = 17
    new = run_units(todo, deadline)
    for i in todo:
        r, keep = new[i], getattr(UNITS[i], "keep", None)
        if keep is not None:
            r.obs = [o for o in r.obs if keep(o[0])]
        if r.error is None and r.obs and all(o[1] for o in r.obs):
            results = [r if x.name == r.name and any(not o[1] for o in x.obs) else x for x in results]
    return results


def drive(prop, secs, seed, replay_out):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", VERIF_REPO=REPO, PYTHONHASHSEED="0")
    try:
        p = subprocess.run([PY, os.path.join(HERE, "drivers", "run.py"), prop, "--seconds", str(secs), "--seed", str(seed), "--out", replay_out],
                           capture_output=True, text=True, timeout=secs * 3 + 90, env=env, cwd="/")
    except subprocess.TimeoutExpired:
        return {"error": "driver timed out"}
    for line in p.stdout.splitlines()[::-1]:
        if line.startswith("DRIVER "):
            return json.loads(line[7:])
    return {"error": f"driver ended with {p.returncode}: {p.stderr[-1500:]}"}


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={prop} "):
                out.append(line[len(f"known: property={prop} "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-driver", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop, cfg = a.prop, PROPS[a.prop]
    results = discharge(prop, cfg, a.tier)
    t_proof = time.time() - t0
    obs = [(r.name,) + tuple(o) for r in results for o in r.obs]
    bad = [o for o in obs if not o[2]]
    unreached = [r for r in results if r.error]
    partial = cfg.get("bounded", [])     # functions outside the verifier's reach: the driver stands in for them, never counted as proved
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    dreplay = os.path.join(HERE, "evidence", "replay", f"{prop}-input.json")
    freplay = os.path.join(HERE, "evidence", "replay", f"{prop}-obligation.txt")
    for p in (dreplay, freplay):
        if os.path.exists(p):
            os.unlink(p)
    drv = None
    if cfg.get("driver", True) and not a.no_driver:
        base = (60 if partial else 6) if a.tier == "quick" else 240 if partial else 120
        secs = base if not (bad or unreached) else max(60, base)
        drv = drive(prop, secs, seed, dreplay)
    hit = bool(drv and drv.get("violation"))
    if bad and not hit and time.time() - t0 < (430 if a.tier == "quick" else 1e9):
        # the solver may have missed a proof: one more attempt in another search order; only a complete proof of the unit counts
        results = again(results, time.time() + (300 if a.tier == "quick" else 900))
        obs = [(r.name,) + tuple(o) for r in results for o in r.obs]
        bad = [o for o in obs if not o[2]]
        unreached = [r for r in results if r.error]
    for k in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    violations = 0
    lines = []
    if hit:
        violations += 1
        lines.append(f"VIOLATION property={prop} replay={dreplay}")
    elif bad:
        violations += 1
        lines.append(f"VIOLATION property={prop} replay={freplay} no-failing-input-found")
    if bad or unreached:
        with open(freplay, "w") as f:
            f.write(f"property {prop}: obligations generated from {REPO} that are not discharged\n\n")
            for o in bad:
                f.write(f"unit {o[0]}\nobligation {o[1]}\nback end {o[3]}, answer {o[5]}, {o[4]:.2f}s\n{o[6]}\n")
                if o[7]:
                    f.write("counter-model (abstract):\n" + o[7] + "\n")
                f.write("\n")
            for r in unreached:
                f.write(f"unit {r.name}: {r.error}\n\n")
    backends = {}
    for o in obs:
        if o[2]:
            backends[o[3]] = backends.get(o[3], 0) + 1
    proved_fns = sorted({fn for r in results if not r.error and all(o[1] for o in r.obs) for fn in r.functions})
    cov = {
        "obligations": len(obs), "discharged": len(obs) - len(bad), "checker_cmd": f"python3-vt check.py {prop} --tier {a.tier}",
        "trusted_base": COMMON_TRUSTED + cfg.get("trusted", []) + sorted({x for r in results for x in r.assumed}),
        "functions_under_contract": proved_fns,
        "by_back_end": backends, "solver_s": round(sum(r.solver_s for r in results), 2), "proof_wall_s": round(t_proof, 2),
        "units": [{"unit": r.name, "paths": r.paths, "paths_to_end": r.covered, "obligations": len(r.obs), "discharged": sum(1 for o in r.obs if o[1]),
                   "cases_reached": sorted(r.cov), "secs": round(r.secs, 2), **({"error": r.error[:400]} if r.error else {})} for r in results],
        "undischarged": [f"{o[0]}: {o[1]}" for o in bad][:50],
        "outside_verifier_reach_bounded_only": [f"{r.name}: {r.error.splitlines()[0]}" for r in unreached] + [f"{n}: not discharged, random histories stand in" for n in partial],
    }
    if partial:
        cov["explanation"] = cfg["note"]
    if drv is not None:
        cov["bounded_cross_check_not_proof"] = {k: v for k, v in drv.items() if k != "violation"}
        if "evaluations" in drv:
            cov["evaluations"] = drv["evaluations"]
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "other" if partial else "proof", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {len(obs)} obligations, {len(obs) - len(bad)} discharged {backends}, {len(results)} units, {len(unreached)} outside reach, "
          f"proof {t_proof:.1f}s, total {time.time() - t0:.1f}s; driver {({k: v for k, v in drv.items() if k in ('evaluations', 'error')} if drv else None)}")
    if a.v or bad or unreached:
        for o in bad[:20]:
            print(f"  undischarged: {o[0]}: {o[1]} [{o[5]}]")
        for r in unreached[:20]:
            print(f"  BOUNDED ONLY (outside the verifier's reach): {r.name}: {r.error.splitlines()[0]}")
    for n in partial:
        print(f"  BOUNDED ONLY (random histories stand in): {n}")
    if hit:
        print("  failing input:", json.dumps(drv["violation"], default=str)[:1500])
    for l in lines:
        print(l)
    if violations:
        return 1
    if not obs:
        print(f"{prop}: no obligation was generated")
        return 2 if drv is None or drv.get("error") else 0
    if drv and drv.get("error"):
        print("driver error:", drv["error"])
        # the proof stands on its own when complete; a driver that could not run only matters when it was needed
        return 2 if unreached or partial else 0
    return 0


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # one order of sets of names, hence the same queries, on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
    sys.exit(main())
