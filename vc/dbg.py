import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
import sys, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc.program import Program
from vc.spec import run_unit
def main():
    mod = importlib.import_module("specs." + sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    root = sys.argv[3] if len(sys.argv) > 3 else "/repo"
    prog = Program(root)
    for u in mod.units(prog):
        if pat in u.name:
            r = run_unit(u, debug="-d" in sys.argv)
            bad = [o for o in r.obs if not o[1]]
            print(f"{u.name:45s} paths {r.paths:4d} cov {r.covered:4d} obs {len(r.obs):4d} bad {len(bad)} {r.secs:6.1f}s", sorted(r.cov) if "-v" in sys.argv else "", "ERR " + r.error if r.error else "")
            for o in bad[:12]:
                print("     FAIL", o[0], o[4], o[5][:300])
main()
