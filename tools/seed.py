#!/usr/bin/env python3
"""seed.py SPEC.py : SPEC defines id, prop, edits=[(file, old, new)], demo (python source run with /opt/venv/bin/python), needs, breaks.
Confirms in a scratch copy (tests pass, demo 0 before / nonzero after) and writes seeded/<id>."""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1], encoding="utf-8").read(), g)
d = os.path.join(HERE, "seeded", g["id"])
os.makedirs(d, exist_ok=True)
w = "/tmp/seedwork"
subprocess.run(["rm", "-rf", "/tmp/seedwork"])
subprocess.run(["cp", "-a", "/repo", w], check=True)
open(d + "/demo.py", "w", encoding="utf-8").write(g["demo"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds; run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\nexec /opt/venv/bin/python "$here/demo.py"\n')
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
a = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
for f, old, new in g["edits"]:
    s = open(w + "/" + f, encoding="utf-8").read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(w + "/" + f, "w", encoding="utf-8").write(s.replace(old, new))
p = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w", encoding="utf-8").write(p)
b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
print("demo clean", a.returncode, a.stderr[-300:] if a.returncode else "", "| patched", b.returncode, (b.stdout + b.stderr)[-200:])
if "--notest" not in sys.argv:
    # the stable tests against the copy: apply the patch in /repo, run, undo
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"], capture_output=True)
        o = json.load(open("/tmp/seed_out.json")); B = json.load(open("/opt/vp/BASELINE.json"))
        print(subprocess.run(["python3", "/tmp/cmp.py", "/tmp/seed_out.json"], capture_output=True, text=True).stdout)
        r = subprocess.run(["python3-vt", HERE + "/check.py", g["prop"]], capture_output=True, text=True, cwd=HERE)
        print("check rc", r.returncode, "\n".join(r.stdout.splitlines()[-8:])[-1200:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
subprocess.run(["rm", "-rf", "/tmp/seedwork"])
