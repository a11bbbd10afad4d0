#!/usr/bin/env python3
"""Run checks on an edited copy of /repo (maintainer tool):
tools/mut.py C01,C02 file old new [file old new ...]   (file relative to utide/)"""
import importlib, os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, V)
from sa import harness, world
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/utide", d + "/utide")
    a = sys.argv[2:]
    for f, old, new in zip(a[::3], a[1::3], a[2::3]):
        p = f"{d}/utide/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{old!r} occurs {s.count(old)} times")
        open(p, "w").write(s.replace(old, new))
    world.load.__defaults__ = (d,) + world.load.__defaults__[1:]
    os.makedirs(d + "/out/evidence")
    shutil.copy(V + "/known-findings.json", d + "/out")
    harness.VERIF = d + "/out"
    for c in sys.argv[1].split(","):
        r = harness.main(c, importlib.import_module("sa.rules." + c.lower()), "quick", 1)
        print(c, "rc", r)
finally:
    shutil.rmtree(d)
