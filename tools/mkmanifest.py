"""writes MANIFEST.json from specs/registry.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from specs.registry import PROPS, NOT_APPLICABLE
props = {json.loads(l)["id"]: json.loads(l) for l in open(ROOT + "/properties.jsonl")}
checks = []
for p, c in PROPS.items():
    checks.append({
        "property": p,
        "quick_cmd": f"python3-vt check.py {p} --tier quick",
        "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
        "technique": "contract-based deductive verification: obligations generated from /repo's Python source by a VC generator, discharged by z3/cvc5; failing-input search on the real code" + ("; bounded stand-in (random histories) for " + ", ".join(c["bounded"]) if c.get("bounded") else ""),
        "level": "other" if c.get("bounded") else "proof",
        "level_note": c.get("note", "Every obligation generated from the current source is discharged for all inputs and all loop iterations; ") + " Trusts the VC generator, the solvers and the assumptions listed in the evidence file (" + "; ".join(c.get("assumptions", []))[:600] + "). The concrete driver is a bounded cross-check, not part of the proof.",
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")} for p in props if p not in PROPS]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
