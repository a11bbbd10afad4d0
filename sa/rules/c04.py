"""C04: verbose."""
from .common import *

EXPLANATION = ("Effect and dependence analysis: with verbose=False no statement that writes to standard output or error streams is reachable from solve() or reconstruct(); "
               "with an arbitrary verbose value no computed result depends on it through data or control flow, and the set of results is the same.")
ASSUMPTIONS = ["numpy and scipy calls used by the package print nothing"]


def configs(tier, seed):
    return grid(tier, seed)


def run(I, c, rep):
    r = cf.run_solve(I, c)
    runs = [("solve", r)]
    if r.value is not None:
        runs.append(("reconstruct", cf.run_reconstruct(I, c, r)))
    for what, q in runs:
        n = 0
        for e in q.events:
            if e["kind"] == "print":
                n += 1
                rep.bad("silent", site(e), f"{what}: writes to standard output although verbose=False")
        if not n:
            rep.ok("silent", what)
    if c.get("conf_int") != "none" and not c.get("white") and c.get("twodim"):
        return
    vb = world.scalar("verbose", "b", re=((0.0, 1.0),), deps=frozenset(["verbose"]), nonneg=True, integer=True)
    s = cf.run_solve(I, c, verbose=vb)
    runs = [("solve", s, r)]
    if s.value is not None:
        vr = world.scalar("verbose", "b", re=((0.0, 1.0),), deps=frozenset(["verbose"]), nonneg=True, integer=True)
        runs.append(("reconstruct", cf.run_reconstruct(I, c, s, verbose=vr), runs[-1][1] if len(runs) > 1 else None))
    for what, q, ref in runs:
        if q.value is None:
            if ref is not None and ref.value is not None:
                rep.unsure("verbose-neutral", what, f"raises {q.exc}")
            continue
        for p, v in walk(q):
            if "opt" in p or "verbose" in p:
                continue
            if "verbose" in {str(x) for x in I.deps(q.st, v)}:
                rep.bad("verbose-neutral", name_of(p), f"{what}: {name_of(p)} depends on verbose", key=name_of(p))
            else:
                rep.ok("verbose-neutral", f"{what} {name_of(p)}")
