#!/usr/bin/env python3
"""Run the checks on each planted bug in turn (maintainer tool): tools/catch.py [-a] [-r] [id ...]
-a: every claimed check (records seeded/CAUGHT.json), otherwise the check of the bug's property;
-r: applies the change to /repo itself and undoes it, otherwise works on a copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every, real = "-a" in args, "-r" in args
args = [a for a in args if a not in ("-a", "-r")]
man = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
ON = """import importlib, sys
sys.dont_write_bytecode = True
V, d, c = sys.argv[1:]
sys.path.insert(0, V)
from sa import harness, world
world.load.__defaults__ = (d,) + world.load.__defaults__[1:]
harness.VERIF = d + "/out"
sys.exit(harness.main(c, importlib.import_module("sa.rules." + c.lower()), "quick", 1))
"""
for i in args or sorted(x for x in os.listdir(V + "/seeded") if os.path.isdir(V + "/seeded/" + x)):
    p = f"{V}/seeded/{i}/patch.diff"
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    d = "/repo" if real else tempfile.mkdtemp(prefix="catch")
    if not real:
        shutil.copytree("/repo/utide", d + "/utide")
        os.makedirs(d + "/out/evidence")
        shutil.copy(V + "/known-findings.json", d + "/out")
    r = subprocess.run(["git", "apply", p], cwd=d, capture_output=True, text=True)
    try:
        if r.returncode:
            print(i, "does not apply", r.stderr[:200]); continue
        hit = []
        for c in (man if every else [prop]):
            cmd = [sys.executable, V + "/check.py", c] if real else [sys.executable, "-c", ON, V, d, c]
            q = subprocess.run(cmd, capture_output=True, text=True, cwd=V, env=dict(os.environ, PYTHONHASHSEED="0"))
            if q.returncode == 1:
                hit.append(c)
            if c == prop or q.returncode not in (0, 1):
                print("\n".join("   " + l[:200] for l in q.stdout.splitlines()[-4:]))
                if q.returncode not in (0, 1): print(q.stderr[-500:])
        print(i, "property", prop, "caught" if prop in hit else "MISSED", *hit, flush=True)
        if every:
            f = V + "/seeded/CAUGHT.json"
            rec = json.load(open(f)) if os.path.exists(f) else {}
            rec[i] = hit
            json.dump(dict(sorted(rec.items())), open(f, "w"), indent=1)
    finally:
        if real:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], capture_output=True)
        else:
            shutil.rmtree(d)
