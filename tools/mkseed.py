"""make and confirm a planted bug: mkseed.py SPEC.py ; SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (python text), HELPERS=[files]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
def build(path):
    m = runpy.run_path(path)
    out = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/seeded/" + m["ID"]
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        for f in m.get("HELPERS", []):
            shutil.copy(f, out)
        open(out + "/demo.py", "w").write(m["DEMO"])
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        run = lambda: subprocess.run(["bash", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
        r0 = run()
        for file, old, new in m["EDITS"]:
            p = os.path.join(d, file); s = open(p).read()
            assert s.count(old) == 1, (file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        r1 = run()
        ok = r0.returncode == 0 and r1.returncode != 0
        print(m["ID"], "demo before", r0.returncode, "after", r1.returncode, (r0.stderr if r0.returncode else r1.stderr or r1.stdout).strip().splitlines()[-1:], flush=True)
        if ok and "--notest" not in sys.argv:
            t = subprocess.run(f"cd {d} && timeout 300 /opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3", shell=True, capture_output=True, text=True)
            print(m["ID"], "tests:", t.stdout.strip().splitlines()[-1:], flush=True)
    finally:
        shutil.rmtree(d)
    return 0 if ok else 1
if __name__ == "__main__":
    sys.exit(max(build(p) for p in sys.argv[1:] if not p.startswith("-")))
