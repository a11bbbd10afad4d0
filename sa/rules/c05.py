"""C05: malformed requests are refused."""
from .common import *

EXPLANATION = ("Definite-exception (path) analysis: solve() and reconstruct() are interpreted for each kind of malformed request, with arbitrary data. The obligation is that every path "
               "ends in an exception; it is violated when the analysis reaches the return of the public function on a path without any operation that may itself raise.")
ASSUMPTIONS = ["any exception counts as a refusal"]

L5, L7, L2, L1 = ("lit", 5), ("lit", 7), ("lit", 2), tm.ONEAX

SHAPES = {  # t, u, v
    "u longer": ((L5,), (L7,), None), "u shorter": ((L7,), (L5,), None), "u of one sample": ((L5,), (L1,), None), "t of one sample": ((L1,), (L5,), None),
    "v longer": ((L5,), (L5,), (L7,)), "v shorter": ((L7,), (L7,), (L5,)), "v of one sample": ((L5,), (L5,), (L1,)), "u and v differ from t": ((L7,), (L5,), (L5,)),
    "u of two dimensions": ((L5,), (L5, L2), None), "u a column": ((L5,), (L5, L1), None), "u a row": ((L5,), (L1, L5), None),
    "t of two dimensions": ((L5, L2), (L5,), None), "t a column": ((L5, L1), (L5,), None),
    "t and u of two dimensions": ((L5, L2), (L5, L2), None), "all of two dimensions": ((L5, L2), (L5, L2), (L5, L2)), "all columns": ((L5, L1), (L5, L1), (L5, L1)),
    "v of two dimensions": ((L5,), (L5,), (L5, L2)), "v a column": ((L5,), (L5,), (L5, L1)), "u and v of two dimensions": ((L5,), (L5, L2), (L5, L2)),
    "scalars": ((), (), None), "u a scalar": ((L5,), (), None), "v a scalar": ((L5,), (L5,), ()),
}
NAMES = ["foo", "Trend", "robustkw", "confint", "min_SNR", "Nodal", "lat_", "prefilt", "order", "MCn"]
VALUES = [("conf_int", v) for v in ("nonsense", "lin", "Linear", "mc", "", "linear ", "bootstrap")] + \
         [("method", v) for v in ("nonsense", "OLS", "cauchy", "", "irls", "rob")] + \
         [("phase", v) for v in ("nonsense", "greenwich", "Local", "", "linear", "linear time")] + \
         [("nodal", v) for v in ("nonsense", "linear", "", "yes", "Linear_time", "none")] + \
         [("order_constit", v) for v in ("nonsense", "pe", "freq", "", "amplitude", "snr", "frequency ")]
INFER = ["inferred_names", "reference_names", "amp_ratios", "phase_offsets"]
EPOCHS = ["nonsense", "Python", "", "days since 1970-01-01", "python ", "gregorian"]


def configs(tier, seed):
    out = [dict(case="latitude", how=h, twodim=w) for h in ("missing", "None") for w in (False, True)]
    out += [dict(case="shape", how=s) for s in SHAPES]
    for w in (False, True):
        out += [dict(case="name", how=n, twodim=w) for n in NAMES]
        out += [dict(case="value", how=f"{k}={v!r}", key=k, value=v, twodim=w) for k, v in VALUES]
        for m in ("ols", "robust"):
            for k, v in VALUES[::3]:
                if k != "method":
                    out.append(dict(case="value", how=f"{k}={v!r} {m}", key=k, value=v, twodim=w, method=m))
        out += [dict(case="value", how=f"SNR order, {m}", key="order_constit", value="SNR", twodim=w, conf_int="none", method=m) for m in ("ols", "robust")]
        out += [dict(case="infer", how=f"without {k}", drop=k, twodim=w, kind=d) for k in INFER for d in ("inst", "dict")]
        out += [dict(case="infer", how=f"{k} {d:+d}", length=(k, d), twodim=w, kind=q, n=n) for k in INFER for d in (1, -1, 2) for q in ("inst", "dict") for n in (1, 2) if d + n > 0]
        out += [dict(case="infer", how="ratios and offsets too long", length=("amp_ratios+phase_offsets", 1), twodim=w, kind="inst", n=2),
                dict(case="infer", how="offsets and ratios of the other kind of series", other=True, twodim=w, kind="inst", n=2)]
        out += [dict(case="epoch", how=f"{e!r} with numeric times", value=e, numeric=True, twodim=w) for e in EPOCHS]
        out += [dict(case="epoch", how=f"{e!r} with datetimes", value=e, numeric=False, twodim=w) for e in ("python", "matlab", "date", "nonsense")]
    out += [dict(case="reconstruct shape", how=s, axes=a) for s, a in (("two dimensions", (L5, L2)), ("a column", (L5, L1)), ("a row", (L1, L5)), ("three dimensions", (L5, L2, L2)))]
    out += [dict(case="reconstruct epoch", how=f"{e!r} with numeric times", value=e, numeric=True) for e in EPOCHS]
    out += [dict(case="reconstruct epoch", how=f"{e!r} with datetimes", value=e, numeric=False) for e in ("python", "matlab", "date", "nonsense")]
    # one process handles several requests
    k = 4
    groups = [dict(items=out[i::max(1, len(out) // k)]) for i in range(max(1, len(out) // k))]
    for g in groups:
        g["name"] = "; ".join(f"{c['case']}: {c['how']}" for c in g["items"])
    return groups


def arr(name, axes, root=None, deg=1):
    return world.base_arr(name, list(axes), "f", None, deg, frozenset([(name, "nan")]), None, root=root or f"arg:{name}") if axes else world.scalar(name, deg=deg)


def request(I, c):
    st = world.fresh_state(I, "utide._solve")
    case, two = c["case"], c.get("twodim", False)
    kw = {"verbose": False}
    for k in ("conf_int", "method"):
        if c.get(k):
            kw[k] = c[k]
    if case == "latitude":
        kw = {k: world.opt_value(I, st, v) for k, v in kw.items()}
        args = [world.series("t", world.TAX, (), 0), world.series("u", world.TAX, ())] + ([world.series("v", world.TAX, ())] if two else [])
        if c["how"] == "None":
            kw["lat"] = Known(None)
        kw["epoch"] = Known("python")
        return world.call(I, "utide._solve", "solve", args, kw, st)
    if case == "shape":
        t, u, v = SHAPES[c["how"]]
        args = [arr("t", t, deg=0), arr("u", u)] + ([arr("v", v)] if v is not None else [])
        kw = {"verbose": num(False), "lat": world.scalar("lat", re=world.LATR), "epoch": Known("python")}
        return world.call(I, "utide._solve", "solve", args, kw, st)
    if case == "name":
        kw[c["how"]] = True
    elif case == "value":
        kw[c["key"]] = c["value"]
    elif case == "epoch":
        return run_epoch(I, c, st, kw)
    infer = None
    if case == "infer":
        n = c.get("n", 2)
        spec_ = [("I1", "R1"), ("I2", "R2")][:n]
        infer = world.infer_arg(I, st, spec_, two != bool(c.get("other")), c["kind"])
        cell = st.heap[infer.oid].copy()
        if c.get("drop"):
            del cell.d[c["drop"]]
        if c.get("length"):
            ks, d = c["length"]
            for k in ks.split("+"):
                ref = cell.d[k]
                items = list(st.heap[ref.oid].items)
                items = items[:d] if d < 0 else items + [("v", Known(f"X{j}") if k.endswith("names") else world.scalar(f"extra{j}")) for j in range(d)]
                st.heap[ref.oid] = ListCell(items)
        st.heap[infer.oid] = cell
    return world.run_solve(I, two, t="python", kinds=("nan",), infer=infer, st=st, **kw)


def run_epoch(I, c, st, kw):
    e = world.date_symbol("epoch0") if c["value"] == "date" else Known(c["value"])
    t = "python" if c["numeric"] else "datetime"
    if t == "datetime":
        kw["epoch"] = e
        return world.run_solve(I, c.get("twodim"), t="datetime", kinds=("nan",), st=st, **kw)
    return world.run_solve(I, c.get("twodim"), t=None, kinds=("nan",), st=st, epoch=e, **kw)


def reconstruct_request(I, c):
    r = cf.run_solve(I, dict(constit="list", conf_int="none", t="python", kinds="none"))
    if r.value is None:
        return None
    st = r.st
    I.frames[-1].mod = I.mods["utide._reconstruct"]
    if c["case"] == "reconstruct shape":
        return world.call(I, "utide._reconstruct", "reconstruct", [arr("tr", c["axes"], deg=0), r.value], {"verbose": num(False), "epoch": Known("python")}, st)
    e = world.date_symbol("epoch0") if c["value"] == "date" else Known(c["value"])
    tin = world.series("tr", world.RAX, ("nan",), 0, **({} if c["numeric"] else dict(dt="M", unit="ms")))
    return world.call(I, "utide._reconstruct", "reconstruct", [tin, r.value], {"verbose": num(False), "epoch": e}, st)


def run(I, g, rep):
    for c in g["items"]:
        q = reconstruct_request(I, c) if c["case"].startswith("reconstruct") else request(I, c)
        what = f"{c['case']}: {c['how']}" + (" (vector)" if c.get("twodim") else "") + (" as dict" if c.get("kind") == "dict" else "")
        if q is None:
            rep.unsure("refused", what, "no coefficient structure")
        elif q.exc is not None:
            rep.ok("refused", what, f"{q.exc.name}: {str(q.exc.msg)[:80]}")
        else:
            may = [e for e in q.events if e["kind"] in ("mayraise", "partial-raise", "module-raise")]
            if may or q.unknown:
                rep.unsure("refused", what, "; ".join(f"{e['kind']} at {site(e)}" for e in may[:3]) or str(sorted(map(str, q.unknown))[:2]))
            else:
                rep.bad("refused", f"{'reconstruct' if c['case'].startswith('reconstruct') else 'solve'}()", f"{what}: the request is accepted", key=what)
