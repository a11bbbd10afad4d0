"""C10: all time representations of an instant are equivalent."""
from fractions import Fraction

from .common import *

EXPLANATION = ("Differential value numbering: the same arbitrary instants (a whole number of milliseconds each, some missing) are handed to solve() and reconstruct() in every representation - day numbers with epoch "
               "'python', 'matlab', a date, a date string or none, datetime64 of several units, integers, lists - and the normal forms of the model matrix, reference time, mean, trend and prediction are compared with those of the "
               "'python' day numbers; the internal conversion is also compared with its definition.")
ASSUMPTIONS = ["exact arithmetic: rounding of day numbers is not modelled"]

MSD = 86400000
REPS = ["matlab", "date", "string", "none", "M:ms", "M:us", "M:ns", "list of dates"]
DAYS = ["python int", "matlab int", "M:s", "M:D", "date int", "list of ints"]


def configs(tier, seed):
    out = []
    for two in (False, True):
        for k in (("nan",), ("nan", "masked")):
            for rep in REPS:
                if "masked" in k and rep.startswith("list"):
                    continue  # a list has no mask
                out.append(dict(rep=rep, twodim=two, miss=k))
        for rep in DAYS:
            out.append(dict(rep=rep, twodim=two, miss=()))
    for rep in REPS:
        for nod, ph, tr in ((True, "raw", False), ("linear_time", "linear_time", True)):
            out.append(dict(rep=rep, twodim=False, miss=("nan",), nodal=nod, phase=ph, trend=tr, conf_int="linear"))
    for rep in REPS + DAYS:
        out.append(dict(rep=rep, conv=True, miss=("nan",) if rep in REPS else ()))
    return cf.named(out)


def whole(rep):
    return rep in DAYS or rep == "python"


def instants(rep, ax, miss, name):
    """(array or list, epoch) for arbitrary instants tau; tau counts ms, or days when whole."""
    w = whole(rep)
    tau = tm.sym(name, (), (ax,), real=True, integer=True)
    ms = tm.mul(tm.pconst(MSD), tau) if w else tau  # since 1970
    day = tm.add(tm.mul(tm.pconst(Fraction(1, MSD)), ms), tm.pconst(719163))
    inv = frozenset((name, "nan") for k in miss if k == "nan")
    mk = frozenset((name, "masked") for k in miss if k == "masked")
    e0 = tm.sym("epoch0", (), (), integer=True)
    ep, dt, unit = None, "f", None
    if rep.startswith(("python", "base")):
        p, ep = day, Known("python")
    elif rep.startswith("matlab"):
        p, ep = tm.add(day, tm.pconst(366)), Known("matlab")
    elif rep.startswith("date"):
        if w:
            e0 = tm.mul(tm.pconst(MSD), tm.sym("epoch0d", (), (), integer=True))
        p = tm.mul(tm.pconst(Fraction(1, MSD)), tm.sub(ms, e0))
        ep = Num("M", Info(tm.T(e0), frozenset(["epoch0"]), None, ((0.0, 0.0),), 0), unit="ms")
    elif rep == "string":
        p, ep = tm.mul(tm.pconst(Fraction(1, MSD)), tm.sub(ms, tm.pconst(946684800000))), Known("2000-01-01")
    elif rep == "none":
        p, dt, unit = ms, "M", "ms"
    elif rep.startswith("M:"):
        p, dt, unit = ms, "M", rep[2:]
    elif rep == "list of dates":
        p, dt, unit = ms, "M", "us"
    elif rep == "list of ints":
        p, dt, ep = day, "i", Known("python")
    else:
        raise KeyError(rep)
    if rep.endswith(" int"):
        dt = "i"
    d = frozenset([name])
    if rep.startswith("list"):
        return ("list", Num(dt, Info(tm.T(p), d, None, ((0.0, 0.0),), 0, inv), unit=unit)), ep
    return ("array", Arr([ax], dt, Info(tm.T(p), d, None, ((0.0, 0.0),), 0, inv, mk), root=frozenset([f"arg:{name}"]), ma=bool(mk), unit=unit)), ep


def place(I, st, x, ax, name):
    kind, v = x
    if kind == "array":
        return v
    r = Ref("list", f"arg:{name}")
    st.heap[r.oid] = ListCell([("ax", ax, v)])
    return r


def solve(I, c, rep_):
    st = world.fresh_state(I, "utide._solve")
    tm.PARITY[world.TAX] = 0
    x, ep = instants(rep_, world.TAX, c["miss"], "t")
    kw = dict(verbose=num(False), lat=world.scalar("lat", re=world.LATR), constit=world.strlist(I, st, cf.NAMES, "arg:constit"),
              order_constit=world.strlist(I, st, cf.NAMES, "arg:order_constit"), conf_int=Known(c.get("conf_int", "none")), white=num(True) if c.get("conf_int") else num(False))
    for k in ("nodal", "phase", "trend"):
        if k in c:
            kw[k] = world.opt_value(I, st, c[k])
    if ep is not None:
        kw["epoch"] = ep
    args = [place(I, st, x, world.TAX, "t"), world.series("u", world.TAX, ("nan",))]
    if c.get("twodim"):
        args.append(world.series("v", world.TAX, ("nan",)))
    return world.call(I, "utide._solve", "solve", args, kw, st)


def predict(I, c, r, rep_):
    st = r.st.copy()
    I.frames[-1].mod = I.mods["utide._reconstruct"]
    x, ep = instants(rep_, world.RAX, c["miss"], "tr")
    kw = dict(verbose=num(False), min_SNR=num(0), min_PE=num(0))
    if ep is not None:
        kw["epoch"] = ep
    return world.call(I, "utide._reconstruct", "reconstruct", [place(I, st, x, world.RAX, "tr"), r.value], kw, st)


def run(I, c, rep):
    if c.get("conv"):
        return conversion(I, c, rep)
    base = "python" if whole(c["rep"]) else "base"
    r0, r1 = solve(I, c, base), solve(I, c, c["rep"])
    if r0.value is None:
        rep.unsure("same result", "solve", f"raises {r0.exc}")
        return
    if r1.value is None:
        if r1.unknown:
            rep.unsure("same result", "solve", f"raises {r1.exc}")
        else:
            rep.bad("same result", site(r1.exc.loc), f"times given as {c['rep']} are refused: {r1.exc.name} {r1.exc.msg}", key=c["rep"])
        return
    l0, l1 = ([e for e in r.events if e["kind"] == "lstsq" and e["B"] is not None] for r in (r0, r1))
    if l0 and l1:
        same(rep, "same result", site(l1[0]) + " model matrix", l0[0]["B"].term, l1[0]["B"].term, f"times given as {c['rep']}: the model matrix differs from that for the same instants as day numbers", key="B")
    else:
        rep.unsure("same result", "solve", "no least-squares system")
    for f in (("aux", "reftime"), ("mean",), ("slope",), ("umean",), ("vmean",), ("uslope",), ("vslope",), ("A_ci",), ("g",), ("Lsmaj",)):
        v0, v1 = field(r0, *f), field(r1, *f)
        if v0 is None and v1 is None:
            continue
        if not isinstance(v0, (Num, Arr)) or not isinstance(v1, (Num, Arr)):
            rep.unsure("same result", name_of(f), "not available")
            continue
        same(rep, "same result", field_site(r1, f), term(r0, v0), term(r1, v1), f"times given as {c['rep']}: {name_of(f)} differs from that for the same instants as day numbers", key=name_of(f))
    # prediction from one solution
    q0, q1 = predict(I, c, r0, base), predict(I, c, r0, c["rep"])
    if q0.value is None or q1.value is None:
        q = q1 if q1.exc else q0
        if q0.exc is None and not q1.unknown:
            rep.bad("same result", site(q.exc.loc), f"reconstruct: times given as {c['rep']} are refused: {q.exc.name} {q.exc.msg}", key=c["rep"])
        else:
            rep.unsure("same result", "reconstruct", f"raises {q.exc}")
        return
    for f in "huv":
        h0, h1 = field(q0, f), field(q1, f)
        if h0 is None and h1 is None:
            continue
        if not isinstance(h0, Arr) or not isinstance(h1, Arr):
            rep.unsure("same result", f, "not available")
            continue
        if tuple(h0.axes) != tuple(h1.axes):
            rep.unsure("same result", f, "shapes")
            continue
        same(rep, "same result", field_site(q1, (f,)), term(q0, h0), term(q1, h1), f"reconstruct: times given as {c['rep']}: {f} differs", key=f)


def conversion(I, c, rep):
    m = I.mods.get("utide._time_conversion")
    f = m.env.get("_normalize_time") if m else None
    if not isinstance(f, Func):
        rep.unsure("conversion", "utide/_time_conversion.py", "no _normalize_time")
        return
    st = world.fresh_state(I, "utide._time_conversion")
    x, ep = instants(c["rep"], world.TAX, c["miss"], "t")
    y, _ = instants("python" if whole(c["rep"]) else "base", world.TAX, c["miss"], "t")
    q = world.call(I, "utide._time_conversion", "_normalize_time", [place(I, st, x, world.TAX, "t"), ep if ep is not None else Known(None)], {}, st)
    if not isinstance(q.value, Arr) or len(q.value.axes) != 1:
        rep.unsure("conversion", "_normalize_time", f"{q.exc or q.value}"[:200])
        return
    i = I.info(q.st, q.value)
    same(rep, "conversion", "utide/_time_conversion.py (_normalize_time)", y[1].init.term, i.term, f"instants given as {c['rep']} are not mapped to days since 0000-12-31", key=c["rep"])
    want = y[1].init.inv
    if want:
        rep.check(True if want <= i.inv | i.mk else False, "invalid stays invalid", "utide/_time_conversion.py (_normalize_time)", f"an invalid date given as {c['rep']} becomes a number", key=c["rep"])
