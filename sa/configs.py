"""Option combinations of solve() and the runs they stand for."""

import random

from . import world
from .vals import *

DIMS = {
    "twodim": [False, True],
    "t": ["python", "matlab", "datetime", "date"],
    "conf_int": ["linear", "none", "MC"],
    "method": ["ols", "robust"],
    "trend": [True, False],
    "phase": ["Greenwich", "linear_time", "raw"],
    "nodal": [True, False, "linear_time"],
    "white": [False, True],
    "order_constit": [None, "PE", "SNR", "frequency", "list"],
    "infer": [None, "one", "many", "dict"],
    "constit": ["auto", "list", "abstract"],
    "kinds": ["all", "none"],
}

NAMES = ["N1", "N2", "R1"]
INFER = {"one": [("I1", "R1")], "dict": [("I1", "R1")], "many": [("I1", "R2"), ("I2", "R1"), ("I3", "R2")],
         "swap": [("I2", "R1"), ("I3", "R2"), ("I1", "R2")], "both": [("N2", "R1"), ("I1", "N1")]}


def valid(c):
    if c.get("conf_int") == "MC" and c.get("infer"):
        return False
    if c.get("order_constit") == "SNR" and c.get("conf_int") == "none":
        return False
    if c.get("white") and c.get("conf_int") == "none":
        return False
    if c.get("order_constit") == "list" and (c.get("constit") != "list"):
        return False
    return True


def covering(dims=None, strength=2, seed=1, fixed=None, ok=valid):
    """Greedy covering array: every valid tuple of values of `strength` options."""
    import itertools

    dims = dict(dims or DIMS)
    for k, v in (fixed or {}).items():
        dims[k] = [v]
    keys = list(dims)
    rnd = random.Random(7)
    todo = set()
    for ks in itertools.combinations(keys, strength):
        for vs in itertools.product(*[dims[k] for k in ks]):
            if ok(dict(zip(ks, vs))):
                todo.add(tuple(zip(ks, map(repr, vs))))
    # tuples only some other option's constraint rules out are dropped when unreachable
    out = []
    fails = 0
    while todo and fails < 60:
        best, bestn = None, 0
        for _ in range(40):
            c = {}
            seedt = rnd.choice(sorted(todo))
            for k, v in seedt:
                c[k] = next(x for x in dims[k] if repr(x) == v)
            rest = [k for k in keys if k not in c]
            rnd.shuffle(rest)
            good = ok(c)
            for k in rest:
                vals = list(dims[k])
                rnd.shuffle(vals)
                sc, pick = -1, None
                for v in vals:
                    d = dict(c)
                    d[k] = v
                    if not ok(d):
                        continue
                    n = sum(1 for t in todo if any(a == k and b == repr(v) for a, b in t) and all(a not in d or repr(d[a]) == b for a, b in t))
                    if n > sc:
                        sc, pick = n, v
                if sc < 0:
                    good = False
                    break
                c[k] = pick
            if not good or not ok(c):
                continue
            n = sum(1 for t in todo if all(repr(c[a]) == b for a, b in t))
            if n > bestn:
                best, bestn = c, n
        if best is None:
            fails += 1
            continue
        out.append(best)
        todo = {t for t in todo if not all(repr(best[a]) == b for a, b in t)}
    return out


def label(c):
    return " ".join(f"{k}={v}" for k, v in c.items() if k not in ("name", "cost") and v not in (None,))


def cost(c):
    n = 1
    if c.get("conf_int") != "none":
        n += 2
        if not c.get("white"):
            n += 6
        if c.get("infer"):
            n += 2
    if c.get("twodim"):
        n *= 2
    if c.get("method") == "robust":
        n += 2
    return n


def named(cs):
    for c in cs:
        c["name"] = label(c)
        c["cost"] = cost(c)
    return cs


def date_epoch(I):
    """An arbitrary date given as epoch."""
    return world.date_symbol("epoch0")


def run_solve(I, c, st=None, **over):
    """The abstract call solve(...) of a configuration."""
    c = dict(c, **over)
    st = st or world.fresh_state(I, "utide._solve")
    kw = {k: c[k] for k in ("conf_int", "method", "trend", "phase", "nodal", "white", "Rayleigh_min", "verbose", "MC_n", "robust_kw") if k in c and c[k] is not None}
    kw.setdefault("verbose", False)
    t = c.get("t", "python")
    two = c.get("twodim", False)
    if c.get("order_constit") == "list":
        kw["order_constit"] = world.strlist(I, st, list(reversed(all_names(c))), "arg:order_constit")
    elif c.get("order_constit"):
        kw["order_constit"] = c["order_constit"]
    if c.get("order_constit_value") is not None:
        kw["order_constit"] = world.strlist(I, st, c["order_constit_value"], "arg:order_constit")
    infer = None
    if c.get("infer"):
        infer = world.infer_arg(I, st, INFER[c["infer"]], two, "dict" if c["infer"] == "dict" else "inst")
    if c.get("constit") == "list":
        kw["constit"] = world.strlist(I, st, c.get("names", NAMES), "arg:constit")
    elif c.get("constit") == "abstract":
        kw["constit"] = world.abstract_names(I, st, "constit", world.LK, "arg:constit")
    kinds = world.KINDS if c.get("kinds", "all") == "all" else () if c["kinds"] == "none" else c["kinds"]
    if t == "date":
        kw["epoch"] = world.date_symbol("epoch0")
        t = None
    return world.run_solve(I, two, t=t, kinds=kinds, infer=infer, st=st, parity=c.get("parity", 0), lat=c.get("lat"), tdt=c.get("tdt", "f"), **kw)


def all_names(c):
    ns = list(c.get("names", NAMES))
    for i, r in INFER.get(c.get("infer"), []):
        for x in (i, r):
            if x not in ns:
                ns.append(x)
    return ns


def run_reconstruct(I, c, run, st=None, own=True, same_time=False, **opts):
    st = st or run.st
    coef = run.value
    if own:
        coef = world.own(I, st, coef, "arg:coef")
    opts.setdefault("verbose", False)
    t = c.get("tr", c.get("t", "python"))
    if t == "date":
        opts["epoch"] = world.date_symbol("epoch0")
        t = None
    kinds = world.KINDS if c.get("kinds", "all") == "all" else ()
    tin = run.args[0][0] if same_time else None
    I.frames[-1].mod = I.mods["utide._reconstruct"]
    return world.run_reconstruct(I, coef, st, t=t, kinds=kinds, tin=tin, **opts)
