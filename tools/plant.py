#!/usr/bin/env python3
"""Create and confirm planted bugs described in tools/bugs.py (maintainer tool,
not used by any check): python3 tools/plant.py [id ...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import bugs
W = "/tmp/plantw"
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, (p.stdout + p.stderr)
base = json.load(open("/opt/vp/BASELINE.json"))
mine = subprocess.run("git log --format=%h --grep='^fix:'", shell=True, cwd="/repo", capture_output=True, text=True).stdout.split()
ids = sys.argv[1:] or [b["id"] for b in bugs.BUGS]
for b in bugs.BUGS:
    if b["id"] not in ids:
        continue
    d = os.path.join(V, "seeded", b["id"])
    if os.path.exists(W):
        shutil.rmtree(W)
    shutil.copytree("/repo", W, symlinks=True)
    bad = False
    for f, old, new in b["edits"]:
        p = os.path.join(W, "utide", f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT", f, "count", s.count(old)); bad = True; break
        open(p, "w").write(s.replace(old, new))
    if bad:
        continue
    os.makedirs(d, exist_ok=True)
    rc, diff = sh("git diff", W)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(bugs.HEAD + b["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    r0, o0 = sh("bash %s/demo.sh" % d, "/repo")
    r1, o1 = sh("bash %s/demo.sh" % d, W)
    rt, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -4", W)
    print(b["id"], "clean", r0, "patched", r1, "|", o1.strip().splitlines()[-1:] if r1 else "", "| tests:", ot.strip().splitlines()[-1:], "" if r0 == 0 else o0[-600:])
shutil.rmtree(W, ignore_errors=True)
