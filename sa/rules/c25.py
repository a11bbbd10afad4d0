"""C25: vector and scalar analyses agree on shared behaviour."""
from .c12 import coefficients
from .common import *

EXPLANATION = ("Differential value numbering of a scalar and a vector analysis of the same arbitrary times with the same options (the second component without missing samples): the model matrix, reference time, frequencies, names and "
               "constituent indices must have the same normal forms. For each, the constant and trend columns are identified in the model matrix (equal to one; derivative in time independent of time) and mean and slope compared with the real "
               "and imaginary parts of their coefficients, converted to data units and data units per day by the column's own derivative.")
ASSUMPTIONS = ["lstsq returns one coefficient per column in column order"]


def configs(tier, seed):
    dims = {k: v for k, v in cf.DIMS.items() if k not in ("twodim", "white", "kinds")}
    cs = cf.covering(dims, 2 if tier == "quick" else 3, seed, None, lambda c: cf.valid(c) and c.get("conf_int") != "MC")
    cs += [dict(constit="list", order_constit="list", method=m, trend=tr, conf_int="none", t=t) for m in ("ols", "robust") for tr in (True, False) for t in ("python", "datetime")]
    return cf.named(cs)


def solve(I, c, two):
    st = world.fresh_state(I, "utide._solve")
    tm.PARITY[world.TAX] = 0
    t = c.get("t", "python")
    kw = {k: world.opt_value(I, st, c[k]) for k in ("conf_int", "method", "trend", "phase", "nodal") if k in c and c[k] is not None}
    kw.update(verbose=num(False), lat=world.scalar("lat", re=world.LATR))
    oc = c.get("order_constit")
    if oc == "list":
        kw["order_constit"] = world.strlist(I, st, list(reversed(cf.all_names(c))), "arg:order_constit")
    elif oc:
        kw["order_constit"] = Known(oc)
    if c.get("constit") == "list":
        kw["constit"] = world.strlist(I, st, cf.NAMES, "arg:constit")
    elif c.get("constit") == "abstract":
        kw["constit"] = world.abstract_names(I, st, "constit", world.LK, "arg:constit")
    if c.get("infer"):
        kw["infer"] = world.infer_arg(I, st, cf.INFER[c["infer"]], two, "dict" if c["infer"] == "dict" else "inst")
    if t == "date":
        kw["epoch"] = world.date_symbol("epoch0")
    elif t != "datetime":
        kw["epoch"] = Known(t)
    k = ("nan", "masked")
    tin = world.series("t", world.TAX, k, 0, **(dict(dt="M", unit="ms") if t == "datetime" else {}))
    args = [tin, world.series("u", world.TAX, k)] + ([world.series("v", world.TAX, ())] if two else [])
    return world.call(I, "utide._solve", "solve", args, kw, st)


def run(I, c, rep):
    r1, r2 = solve(I, c, False), solve(I, c, True)
    for r, w in ((r1, "scalar"), (r2, "vector")):
        if r.value is None:
            rep.unsure("shared", w, f"raises {r.exc}")
    if r1.value is None or r2.value is None:
        return
    l1, l2 = ([e for e in r.events if e["kind"] == "lstsq" and e["B"] is not None] for r in (r1, r2))
    if l1 and l2 and not c.get("infer"):
        same(rep, "same model", site(l2[0]), l1[0]["B"].term, l2[0]["B"].term, "the model matrix of a vector series differs from that of a scalar series", key="B")
    fields = [("aux", "reftime")]
    if c.get("order_constit") in ("list", "frequency"):
        fields += [("aux", "frq"), ("aux", "lind"), ("name",)]
    for f in fields + [("nR",), ("nNR",), ("nI",)]:
        a, b = field(r1, *f), field(r2, *f)
        if isinstance(a, (Num, Arr)) and isinstance(b, (Num, Arr)):
            same(rep, "same fields", field_site(r2, f), term(r1, a), term(r2, b), f"{name_of(f)} of a vector series differs from that of a scalar series", key=name_of(f))
    for r, two in ((r1, False), (r2, True)):
        constants(I, dict(c, twodim=two), r, rep)


def constants(I, c, r, rep):
    got = coefficients(I, c, r)
    if got is None:
        rep.unsure("constants", "solve", "no solution found")
        return
    B, ax, b = got
    two = c["twodim"]
    arr = I.newarr(list(ax), "c", B)
    tref = field(r, "aux", "reftime")
    trend = c.get("trend", True)
    src = "c1 = B[:, -1]\nm1 = b[-1]\nc2 = B[:, -2]\nm2 = b[-2]\n"
    s = spec(I, r.st, src, B=arr, b=b)
    if s.exc is not None or not all(isinstance(s[k], (Num, Arr)) for k in ("c1", "c2", "m1", "m2")) or not isinstance(tref, (Num, Arr)):
        rep.unsure("constants", "solve", "columns not available")
        return
    cols = [(s.term("c1"), s["m1"]), (s.term("c2"), s["m2"])]
    if not trend:
        cols = cols[:1]
    const = [m for t, m in cols if tm.teq(t, tm.T(tm.PONE))[0] is True]
    lin = [(t, m) for t, m in cols if tm.teq(t, tm.T(tm.PONE))[0] is not True]
    if len(const) != 1 or len(lin) != (1 if trend else 0):
        rep.unsure("constants", "solve", "columns not identified")
        return
    res = {"mean": const[0]}
    if trend:
        # derivative of the trend column with respect to the sample's time
        t = time_atom(lin[0][0], ax[0])
        if t is None:
            rep.unsure("constants", "solve", "trend column not identified")
            return
        if any(tm.diff(p, t) is None for _, p in lin[0][0].alts):
            rep.unsure("constants", "solve", "trend column cannot be differentiated")
            return
        d = tm.tmap(lambda p: tm.diff(p, t), lin[0][0])
        if c.get("t") == "datetime":
            d = tm.tmap(lambda p: tm.mul(p, tm.pconst(86400000)), d)
        if any(any(tm.mentions(a, t) for a in p.atoms()) for _, p in d.alts):
            rep.unsure("constants", "solve", "trend column is not linear in time")
            return
        q = spec(I, r.st, "s = m * d", m=lin[0][1], d=Num("f", Info(d, NONE, None, None, 0)))
        res["slope"] = q["s"]
    for what, val in res.items():
        parts = {("u" + what,): "np.real(x)", ("v" + what,): "np.imag(x)"} if two else {(what,): "np.real(x)"}
        for f, e in parts.items():
            v = field(r, *f)
            if not isinstance(v, (Num, Arr)):
                rep.unsure("constants", name_of(f), "not available")
                continue
            x = spec(I, r.st, f"y = {e}", x=val)
            same(rep, "constants", field_site(r, f), x.term("y"), term(r, v), f"{name_of(f)} is not the {'constant' if what == 'mean' else 'trend per day'} of the fitted model", key=name_of(f))


def time_atom(t, ax):
    """The atom of the sample's own time in a column."""
    out = set()

    def go(p):
        for mono in p.m:
            for i, _ in mono:
                a = tm.Atom.byid[i]
                if a.kind == "sym" and a.key[0] == "t" and tuple(a.axes) == (ax,):
                    out.add(a)
    for _, p in t.alts:
        go(p)
    return out.pop() if len(out) == 1 else None
