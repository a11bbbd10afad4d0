"""C07: alignment and order of per-constituent results."""
from . import order as od
from .common import *

EXPLANATION = ("Axis typing: every array carries the symbolic axis (constituent set, and the chain of sort keys and reversals applied to it) it varies along. "
               "All per-constituent results must vary along one and the same reordering; its sort key and direction must order the reported PE, SNR or frequency as asked. "
               "With named constituents the value reported for each name is compared, as a normal-form term, between two explicit orders.")
ASSUMPTIONS = ["no two constituents tie in the sort key", "axis lengths are 3 in the interpretations used to compare sort keys"]

PER = ["name", "A", "A_ci", "Lsmaj", "Lsmaj_ci", "Lsmin", "Lsmin_ci", "theta", "theta_ci", "g", "g_ci", "PE", "SNR"]
PATHS = [(n,) for n in PER] + [("aux", "frq"), ("aux", "lind")]


def configs(tier, seed):
    cs = grid(tier, seed, drop=("t", "kinds", "trend", "phase", "nodal"))
    ds = []
    for two in (False, True):
        for infer in (None, "one", "many"):
            for o in (None, "PE", "SNR", "frequency", "list"):
                for conf in ("linear", "none"):
                    c = {"twodim": two, "infer": infer, "order_constit": o, "constit": "list", "conf_int": conf, "white": conf != "none"}
                    if cf.valid(c):
                        ds.append(c)
    return cs + cf.named(ds)


def fields(r):
    return [(p, v) for p in PATHS for v in [field(r, *p)] if isinstance(v, Arr)]


def run(I, c, rep):
    r = cf.run_solve(I, c)
    if r.value is None:
        rep.unsure("analysis", "solve", f"raises {r.exc}")
        return
    fs = fields(r)
    nm = dict(fs).get(("name",))
    if nm is None or len(nm.axes) != 1:
        rep.unsure("aligned", "name")
        return
    X = nm.axes[0]
    good = True
    for p, v in fs:
        good &= aligned(r, rep, p, v, X, "aligned")
    for k in ("name", "PE", "SNR"):
        v = field(r, "diagn", k)
        n = field(r, "diagn", "name")
        if isinstance(v, Arr) and isinstance(n, Arr):
            aligned(r, rep, ("diagn", k), v, n.axes[0], "aligned-diagn")
    ordered(r, rep, X, c)
    n = field(r, "diagn", "name")
    if isinstance(n, Arr):
        check_order(r, rep, n.axes[0], field(r, "diagn", "PE"), True, "diagn-order", ("diagn", "PE"))
    if c.get("order_constit") == "list" and good:
        by_name(I, c, r, rep)


def aligned(r, rep, p, v, X, rule):
    if len(v.axes) != 1:
        rep.unsure(rule, name_of(p), f"axes {v.axes}")
        return False
    Y = v.axes[0]
    if Y == X or tm.untag(Y) == tm.untag(X):
        rep.ok(rule, name_of(p))
        return True
    if tm.untag(od.base(X)) != tm.untag(od.base(Y)):
        lx, ly = tm.axis_len(X), tm.axis_len(Y)
        if tm.peq(lx, ly) is False and not tm.imprecise(lx) and not tm.imprecise(ly):
            rep.bad(rule, field_site(r, p), f"{name_of(p)} runs over other constituents than name", key=name_of(p))
        else:
            rep.unsure(rule, name_of(p), f"{tm.short(X)} / {tm.short(Y)}"[:200])
        return False
    differ = 0
    seen = 0
    for m in tm._models + tm._more:
        try:
            a, b = od.simulate(m, X), od.simulate(m, Y)
        except OverflowError:
            continue
        seen += 1
        if seen > 5:
            break
        if a is None or b is None:
            rep.unsure(rule, name_of(p), "sort key not known")
            return False
        differ += a != b
    if not seen:
        rep.unsure(rule, name_of(p), "order not evaluated")
        return False
    if differ and od.base(X)[0] != "lit" and (od.depth(X) == 0) == (od.depth(Y) == 0):
        rep.unsure(rule, name_of(p), "sort keys of a symbolic set")
        return False
    if differ:
        rep.bad(rule, field_site(r, p), f"{name_of(p)} is not in the order of the constituent names", key=name_of(p))
        return False
    rep.ok(rule, name_of(p))
    return True


def ordered(r, rep, X, c):
    o = c.get("order_constit")
    if o == "list":
        return
    p = {None: ("PE",), "PE": ("PE",), "SNR": ("SNR",), "frequency": ("aux", "frq")}[o]
    v = field(r, *p)
    if v is None and p == ("PE",):
        rep.bad("order-key", field_site(r, p), "PE order but PE is not reported") if field(r, "name") is not None and c.get("conf_int") != "none" else rep.unsure("order-key", "PE")
        return
    check_order(r, rep, X, v, o != "frequency", "order-key", p)


def check_order(r, rep, X, v, desc, rule, p):
    if not isinstance(v, Arr) or len(v.axes) != 1 or v.axes[0] != X:
        return
    t = term(r, v)
    wrong = seen = 0
    for m in tm._models + tm._more:
        if seen > 4:
            break
        try:
            order = od.simulate(m, X)
            vals = od.values(m, t, od.base(X), X) if order is not None else None
        except OverflowError:
            continue
        if vals is None:
            continue
        seq = [vals[n] for n in order]
        if any(not abs(x) < 1e25 for x in seq):
            continue
        seen += 1
        want = sorted(seq, reverse=desc)
        if any(abs(a - b) > 1e-6 * (abs(a) + abs(b)) for a, b in zip(seq, want)):
            wrong += 1
    if not seen:
        rep.unsure(rule, name_of(p), "order not evaluated")
    elif wrong and od.base(X)[0] != "lit":
        rep.unsure(rule, name_of(p), "sort key of a symbolic set")
    elif wrong:
        rep.bad(rule, field_site(r, p), f"the order is not {'descending' if desc else 'ascending'} in {name_of(p)}", key=name_of(p))
    else:
        rep.ok(rule, name_of(p))


def names_along(r):
    v = field(r, "name")
    if not isinstance(v, Arr) or v.axes[0][0] not in ("lit", "cat") or tm.segments(v.axes[0]) is None:
        return None
    out = []
    for s, ts in tm.seg_alts(term(r, v), v.axes[0]):
        if s != tm.ONEAX or ts is None:
            return None
        x = r.I.np.text_of(Num("O", Info(ts))) if ts.single() is not None else None
        if x is None:
            return None
        out.append(x[1:-1])
    return out


def by_name(I, c, r, rep):
    want = list(reversed(cf.all_names(c)))
    got = names_along(r)
    if got is None:
        rep.unsure("list-order", "name", "names not resolved")
        return
    rep.check(got == want, "list-order", field_site(r, ("name",)), f"asked for {want}, result lists {got}", key="name")
    st = world.fresh_state(I)
    names = cf.all_names(c)
    other = names[1:] + names[:1]
    q = cf.run_solve(I, dict(c, order_constit=None), st, order_constit_value=other)
    gq = names_along(q) if q.value is not None else None
    if gq is None or sorted(gq) != sorted(got):
        if gq is not None and q.value is not None:
            rep.check(gq == other, "list-order", field_site(q, ("name",)), f"asked for {other}, result lists {gq}", key="name")
        else:
            rep.unsure("list-order", "second order")
        return
    fq = dict(fields(q))
    for p, v in fields(r):
        if p == ("name",):
            continue
        w = fq.get(p)
        if w is None:
            rep.bad("order-neutral", field_site(r, p), f"{name_of(p)} is reported for one order only", key=name_of(p))
            continue
        a, b = tm.seg_alts(term(r, v), v.axes[0]), tm.seg_alts(term(q, w), w.axes[0])
        res = True
        for j, n in enumerate(got):
            k = gq.index(n)
            x, y = a[j][1], b[k][1]
            e, wit = tm.teq(x, y) if x is not None and y is not None else (None, None)
            if e is False:
                res = False
                rep.bad("order-neutral", field_site(r, p), f"{name_of(p)} of {n} depends on the order asked for", key=name_of(p))
                break
            if e is None:
                res = None
        if res is True:
            rep.ok("order-neutral", name_of(p))
        elif res is None:
            rep.unsure("order-neutral", name_of(p))
