"""try a textual change on a scratch copy: mut.py PROP[,PROP] FILE <<< 'OLD\n=>\nNEW'  (several blocks separated by a line '---')"""
import os, shutil, subprocess, sys, tempfile
props, file = sys.argv[1].split(","), sys.argv[2]
extra = sys.argv[3:]
rc = 0
for block in sys.stdin.read().split("\n---\n"):
    old, new = block.strip("\n").split("\n=>\n") if "\n=>\n" in block else (block.strip("\n").split("\n=>")[0], "")
    d = tempfile.mkdtemp(prefix="mut-")
    shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/scaled", d + "/scaled", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, file)
    s = open(p).read()
    if s.count(old) < 1:
        print("NOT FOUND", old); continue
    open(p, "w").write(s.replace(old, new, 1))
    print("#", old.strip().splitlines()[0][:70], "=>", (new.strip().splitlines() or ["-"])[0][:70])
    for pr in props:
        r = subprocess.run(["python3-vt", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/check.py", pr] + extra, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        for l in r.stdout.splitlines()[:14] + ([f"  rc {r.returncode}"] if r.returncode else []) + ([r.stderr[-800:]] if r.stderr else []):
            print("   ", l[:260])
    shutil.rmtree(d)
