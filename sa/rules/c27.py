"""C27: Monte Carlo intervals come from realisations of the constituent's own coefficients."""
import itertools

from .. import linci
from . import c21
from .common import *

EXPLANATION = ("solve() is interpreted with conf_int='MC' for lists of arbitrary constituents; every draw from a multivariate normal distribution is recorded and its realisations are replaced by symbols. The mean of the draw must be the cosine and sine coefficients of one constituent's own model "
               "columns and the covariance matrix, entry by entry, their full covariance from the covariance and pseudo-covariance of the (weighted) least-squares solution (written as a specification); with white=False its blocks scaled to the power of the bands the constituent's frequency lies in. "
               "Each reported interval must equal 1.96 times the median absolute deviation over 0.6745 of the ellipse parameter of those realisations, angles taken around the estimate, the inclination modulo half a turn with the phase turning along.")
ASSUMPTIONS = ["exact arithmetic", "the repair of a covariance matrix that is not positive definite (nearestSPD) changes nothing when there is nothing to repair", "replacing the first realisation of an angle by the estimate is allowed, not required"]

CROSS = """
cXuYu = np.imag(H[p, p] - H[p, q] + H[q, p] - H[q, q]) / 2
cXvYv = np.imag(G[p, p] - G[p, q] + G[q, p] - G[q, q]) / 2
cXuXv = -np.imag(H[p, p] + H[p, q] + H[q, p] + H[q, q]) / 2
cXuYv = np.real(G[p, p] - G[q, q]) / 2
cYuXv = np.real(H[q, q] - H[p, p]) / 2
cYuYv = np.imag(G[p, q] + G[q, p] - G[p, p] - G[q, q]) / 2
"""
COLOUR = """
df = 1 / (24 * np.ptp(t) * len(t) / (len(t) - 1))
Su = 0.0
Sv = 0.0
Suv = 0.0
Su = np.where((f >= lo0) & (f <= hi0), u0 * df, Su)
Sv = np.where((f >= lo0) & (f <= hi0), v0 * df, Sv)
Suv = np.where((f >= lo0) & (f <= hi0), c0 * df, Suv)
Su = np.where((f >= lo1) & (f <= hi1), u1 * df, Su)
Sv = np.where((f >= lo1) & (f <= hi1), v1 * df, Sv)
Suv = np.where((f >= lo1) & (f <= hi1), c1 * df, Suv)
du = vXu + vYu
dv = vXv + vYv
vXu = Su * vXu / du
vYu = Su * vYu / du
cXuYu = Su * cXuYu / du
vXv = Sv * vXv / dv
vYv = Sv * vYv / dv
cXvYv = Sv * cXvYv / dv
if two:
    s = abs(cXuXv) + abs(cXuYv) + abs(cYuXv) + abs(cYuYv)
    cXuXv = Suv * cXuXv / s
    cXuYv = Suv * cXuYv / s
    cYuXv = Suv * cYuXv / s
    cYuYv = Suv * cYuYv / s
"""
PARAMETERS = """
if two:
    ap = (Xu + Yv + 1j * (Xv - Yu)) / 2
    am = (Xu - Yv + 1j * (Xv + Yu)) / 2
    a = np.abs(ap) + np.abs(am)
    b = np.abs(ap) - np.abs(am)
    ep = np.angle(ap) * 180 / np.pi
    th = (((np.angle(ap) + np.angle(am)) * 90 / np.pi) % 180)
    g = (th - ep) % 360
    if replaced:
        th[0] = th0
        g[0] = g0
    n = (th - th0 + 90) % 180 - 90 + th0 - th
    th = th + n
    g = g + n
    b_ci = 1.96 * np.median(np.abs(b - np.median(b))) / 0.6745
    th_ci = 1.96 * np.median(np.abs(th - np.median(th))) / 0.6745
else:
    a = np.sqrt(Xu**2 + Yu**2)
    g = (-np.angle(Xu - 1j * Yu) * 180 / np.pi) % 360
    if replaced:
        g[0] = g0
g = (g - g0 + 180) % 360 - 180 + g0
a_ci = 1.96 * np.median(np.abs(a - np.median(a))) / 0.6745
g_ci = 1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
"""


def configs(tier, seed):
    out = []
    for two in (False, True):
        for w in (True, False):
            for tr in (True, False):
                for me in ("ols", "robust"):
                    if tier == "quick" and me == "robust" and tr:
                        continue
                    out.append(dict(twodim=two, white=w, trend=tr, method=me, infer=None, constit="list", conf_int="MC", order_constit="frequency"))
    return cf.named(out)


def drawing(I, draws):
    """Record the draws and hand out symbols."""
    old = I.np.table["random.multivariate_normal"]

    def draw(st, mean, cov, size=None, *r, **kw):
        out = old(st, mean, cov, size, *r, **kw)
        m, c = I.np.A(st, mean), I.np.A(st, cov)
        if not isinstance(out, Arr) or not isinstance(m, Arr) or not isinstance(c, Arr) or len(out.axes) != 2 or len(c.axes) != 2:
            draws.append(None)
            return out
        i = I.info(st, out)
        p = tm.sym(f"draw{len(draws)}", (), tuple(out.axes), real=True)
        new = I.newarr(list(out.axes), "f", i.rep(term=tm.T(p)))
        draws.append((I.loc, list(m.axes), I.info(st, m), list(c.axes), I.info(st, c), list(out.axes), I.info(st, new)))
        return new

    I.np.table["random.multivariate_normal"] = draw
    return old


def run(I, c, rep):
    two = c["twodim"]
    draws, calls = [], []
    I.summaries["nearestSPD"] = lambda I, f, args, kw, st: args[0] if args and isinstance(args[0], Arr) else None
    old = drawing(I, draws)
    try:
        if c["white"]:
            r = cf.run_solve(I, dict(c, kinds="none"))
        else:
            from .c17 import with_bands

            r = with_bands(I, c, calls)
    finally:
        I.np.table["random.multivariate_normal"] = old
        I.summaries.pop("nearestSPD", None)
    if r.value is None:
        rep.unsure("draws", "solve", f"raises {r.exc}")
        return
    if not draws or None in draws or (not c["white"] and not calls):
        rep.unsure("draws", "solve", "draws not identified")
        return
    data = c21.fitted(I, c, r)
    if data is None:
        rep.unsure("draws", "solve", "solution not modelled")
        return
    base = spec(I, r.st, linci.COVARIANCE, two=num(two), **data)
    if base.exc is not None:
        rep.unsure("draws", "solve", f"covariance not evaluated: {base.exc}")
        return
    extra, names = "", {}
    if not c["white"]:
        from .c17 import symbols

        t = calls[0][0]
        if not isinstance(t, Arr) or not isinstance(field(r, "aux", "frq"), Arr):
            rep.unsure("draws", "solve", "frequencies not modelled")
            return
        extra = COLOUR
        names = dict(symbols(), t=I.newarr(list(t.axes), "f", calls[0][1]))
    left = list(range(len(draws)))
    what = ["Xu", "Yu"] + (["Xv", "Yv"] if two else [])
    for k, p, cols in c21.pairs(I, r, two):
        if len(cols) != 2:
            rep.unsure("draws", "solve", f"columns of a constituent not identified: {sorted(cols)}")
            continue
        if not c["white"]:
            fq = [q for g, q in term(r, field(r, "aux", "frq")).alts if k <= set(g)]
            if len(fq) != 1:
                rep.unsure("draws", "solve", "frequency of a constituent not identified")
                continue
            names["f"] = Num("f", I.info(r.st, field(r, "aux", "frq")).rep(term=tm.T(fq[0])))
        a, b = sorted(cols)
        sp = {}
        for u, v in ((a, b), (b, a)):
            s = spec(I, base.st, linci.VARIANCES + CROSS + ("" if two else "vXv = vXu\nvYv = vYu\n") + extra, p=num(u), q=num(v), two=num(two), **names, **{n: base[n] for n in ("G", "H", "m")})
            if s.exc is None:
                sp[u, v] = s
        found = None
        for j in left:
            for uv, s in sp.items():
                order = matched(I, s, draws[j], what)
                if order is not None:
                    found = j, s, order
                    break
            if found:
                break
        if not found:
            exact = all(not tm.imprecise(d[2].term) for d in draws)
            rep.check(False if exact and sp and differ(I, sp, draws, what) else None, "mean of the draw", field_site(r, (c21_fields(two)[0],)), f"no draw is centred on the coefficients of the constituent fitted by columns {sorted(cols)}", "mean")
            continue
        j, s, order = found
        left.remove(j)
        loc = draws[j][0]
        where = f"{loc[0]}:{loc[2]} ({loc[1]})"
        rep.ok("mean of the draw", where)
        covariance(I, rep, s, draws[j], order, what, where)
        intervals(I, c, r, rep, k, s, draws[j], order, what)


def c21_fields(two):
    return ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if two else ("A_ci", "g_ci")


def entries(I, s, axes, info, code):
    """Terms of a small array written out by specification code."""
    st = s.st.copy()
    return spec(I, st, code, x=I.newarr(list(axes), "f", info))


def matched(I, s, d, what):
    """Which coefficient each column of a draw is a realisation of."""
    e = entries(I, s, d[1], d[2], "".join(f"x{i} = x[{i}]\n" for i in range(len(what))))
    if e.exc is not None:
        return None
    out = []
    for i in range(len(what)):
        n = next((w for w in what if w not in out and e.term(f"x{i}") is not None and tm.teq(e.term(f"x{i}"), s.term(w))[0] is True), None)
        if n is None:
            return None
        out.append(n)
    return out


def differ(I, sp, draws, what):
    """Is every draw known to be centred elsewhere?"""
    for d in draws:
        for s in sp.values():
            e = entries(I, s, d[1], d[2], "".join(f"x{i} = x[{i}]\n" for i in range(len(what))))
            if e.exc is not None or any(e.term(f"x{i}") is None for i in range(len(what))):
                return False
            if not any(all(tm.teq(e.term(f"x{i}"), s.term(w))[0] is False for w in what) for i in range(len(what))):
                return False
    return True


def covariance(I, rep, s, d, order, what, where):
    n = len(order)
    e = entries(I, s, d[3], d[4], "".join(f"x{i}{j} = x[{i}, {j}]\n" for i in range(n) for j in range(n)))
    for i, j in itertools.product(range(n), repeat=2):
        u, v = order[i], order[j]
        want = "v" + u if u == v else "c" + (u + v if what_order(u) < what_order(v) else v + u)
        if e.exc is not None:
            rep.unsure("covariance of the draw", where, f"{e.exc}")
            return
        same(rep, "covariance of the draw", where, e.term(f"x{i}{j}"), s.term(want), f"the covariance of {u} and {v} of the draw is not that of the coefficients", f"{u}{v}")


def what_order(n):
    return ("Xu", "Yu", "Xv", "Yv").index(n)




def intervals(I, c, r, rep, k, s, d, order, what):
    two = c["twodim"]
    est = {}
    for n, f in (("g0", "g"), ("th0", "theta")) if two else (("g0", "g"),):
        v = field(r, f)
        ps = [q for g, q in term(r, v).alts if k <= set(g)] if isinstance(v, Arr) else []
        if len(ps) != 1:
            rep.unsure("interval", field_site(r, (f,)), "estimate not identified")
            return
        est[n] = Num("f", I.info(r.st, v).rep(term=tm.T(ps[0])))
    outs = []
    for repl in (True, False):
        src = "".join(f"{n} = x[:, {i}]\n" for i, n in enumerate(order)) + PARAMETERS
        o = spec(I, s.st.copy(), src, x=I.newarr(list(d[5]), "f", d[6]), two=num(two), replaced=num(repl), **est)
        outs.append(o)
    for f, y in (("Lsmaj_ci", "a_ci"), ("Lsmin_ci", "b_ci"), ("theta_ci", "th_ci"), ("g_ci", "g_ci")) if two else (("A_ci", "a_ci"), ("g_ci", "g_ci")):
        alts = [(g, q) for g, q in c21.values(I, r, f) if k <= set(g)]
        where = field_site(r, (f,))
        if not alts:
            rep.unsure("interval", where, "no value found")
            continue
        t = tm.mkterm([(frozenset(x for x in g if x not in k), q) for g, q in alts])
        vs = [tm.teq(t, o.term(y))[0] if o.exc is None and o.term(y) is not None else None for o in outs]
        v = True if True in vs else None if None in vs else False
        rep.check(v, "interval", where, f"{f} is not 1.96 times the robust deviation of the constituent's own realisations", f)
