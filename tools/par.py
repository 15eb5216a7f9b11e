import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
"""run the units of a spec module in parallel: par.py MODULE [pattern] [root]"""
import sys, importlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from vc.program import Program
from vc.spec import run_unit
mod = importlib.import_module("specs." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ""
US = [u for u in mod.units(Program(sys.argv[3] if len(sys.argv) > 3 else "/repo")) if pat in u.name]
def go(i):
    return i, run_unit(US[i])
with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
    for i, r in p.imap_unordered(go, range(len(US)), chunksize=1):
        bad = [o for o in r.obs if not o[1]]
        print(f"{r.name:45s} paths {r.paths:4d} cov {r.covered:4d} obs {len(r.obs):4d} bad {len(bad)} {r.secs:6.1f}s", "ERR " + r.error if r.error else "", flush=True)
        for o in bad[:10]:
            print("     FAIL", o[0], o[4], o[5][:300], flush=True)
