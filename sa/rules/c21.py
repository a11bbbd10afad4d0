"""C21: linearised ellipse uncertainties are first-order error propagation."""
from .. import linci
from .common import *

EXPLANATION = ("The function that turns coefficient errors into ellipse errors is interpreted on symbols and the normal forms of its results compared with the first-order propagation of independent errors (derivatives of the semi-axes as sum and difference of "
               "the moduli, of inclination and phase as half sum and half difference of the arguments, of the two rotary coefficients). The intervals solve() reports for a list of arbitrary constituents are compared with 1.96 times that propagation of the variances of the "
               "constituent's coefficients.")
ASSUMPTIONS = ["exact arithmetic", "the imaginary part of the complex coefficients is not exactly zero"]


def configs(tier, seed):
    out = [dict(case="unit", twodim=w) for w in (False, True)]
    for two in (False, True):
        for tr in (True, False):
            for me in ("ols", "robust"):
                out.append(dict(case="solve", twodim=two, trend=tr, method=me, constit="list", conf_int="linear", white=True, order_constit="frequency"))
        out.append(dict(case="solve", twodim=two, constit="list", infer="many", conf_int="linear", white=True, order_constit="frequency"))
    return cf.named(out)


def run(I, c, rep):
    (unit if c["case"] == "unit" else solve)(I, c, rep)


def unit(I, c, rep):
    two = c["twodim"]
    st = world.fresh_state(I, "utide.confidence")
    names = ["Xu", "Yu", "Xv", "Yv"]
    sy = {n: world.scalar(n) for n in names}
    sg = {n: world.scalar("s" + n, nonneg=True, re=((0.0, float("inf")),)) for n in names}
    e = I.mods["utide.confidence"].env
    f = e.get("ut_linci")
    if f is None:
        rep.unsure("propagation", "ut_linci", "no function of that name")
        return
    src = "r1, r2 = f(Xu + 1j*Xv, Yu + 1j*Yv, sXu + 1j*sXv, sYu + 1j*sYv)\n" if two else "r1, r2 = f(Xu, Yu, sXu, sYu)\n"
    src += "vXu = sXu**2\nvYu = sYu**2\nvXv = sXv**2\nvYv = sYv**2\n" + (linci.ELLIPSE if two else linci.SCALAR)
    src += "a = np.real(r1)**2\nb = np.imag(r1)**2\nc = np.real(r2)**2\nd = np.imag(r2)**2\n"
    s = spec(I, st, src, f=f, **sy, **{"s" + k: v for k, v in sg.items()})
    if s.exc is not None:
        rep.unsure("propagation", "ut_linci", f"raises {s.exc}")
        return
    fn = getattr(f, "node", None)
    site_ = f"utide/confidence.py:{getattr(fn, 'lineno', '?')} (ut_linci)"
    for what, x, y in (("semi-major axis or amplitude", "a", "smaj2"), ("phase", "c", "sg2")) + ((("semi-minor axis", "b", "smin2"), ("inclination", "d", "sth2")) if two else ()):
        t = s.term(x)
        for g, p in (t.alts if t is not None else ()):
            # the branch for exactly real coefficients is not a vector analysis
            if two and any(k[0] == "c" and v is True for k, v in g):
                continue
            same(rep, "propagation", f"{site_} {what}", tm.mkterm([(frozenset(), p)]), s.term(y), f"the error of the {what} is not the first-order propagation of the coefficient errors", key=what)


def columns(p):
    """Constant indices at which a value uses the fitted coefficients."""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, tm.Poly):
            for mono in x.m:
                for i, _ in mono:
                    go(tm.Atom.byid[i])
        elif isinstance(x, tm.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind == "op" and x.key[0] not in ("big:add", "big:mul", "let"):
                ix = [a for a in x.axes if isinstance(a, tuple) and a[0] == "ix"]
                if len(ix) == 1 and len(x.axes) == 1:
                    k = ix[0][1].const() if hasattr(ix[0][1], "const") else None
                    if k is not None:
                        out.add(int(k[0]))
                        return
            for k in x.key:
                go(k)
    go(p)
    return out


def pairs(I, r, two):
    """(guards, amplitude, columns) of each constituent."""
    A = field(r, "Lsmaj" if two else "A")
    if not isinstance(A, Arr):
        return
    for g, p in term(r, A).alts:
        k = {(k, v) for k, v in g if k[0] == "segp"}
        yield k, p, columns(p)


def values(I, r, f):
    v = field(r, f)
    return term(r, v).alts if isinstance(v, Arr) else ()


def fitted(I, c, r):
    """B, weights, data and coefficients of the solution, as arrays."""
    from .c12 import coefficients

    ls = [e for e in r.events if e["kind"] == "lstsq" and e["B"] is not None]
    got = coefficients(I, c, r)
    W = field(r, "weights")
    if not ls or got is None or not isinstance(W, Arr):
        return None
    B, ax, m = got
    y = I.newarr(list(ls[0]["xaxes"]), "c" if c.get("twodim") else "f", ls[0]["x"])
    return dict(B=I.newarr(list(ax), "c", B), m=m, W=W, x=y)


def own(I):
    """Specification code applying the package's own propagation, if found."""
    f = I.mods["utide.confidence"].env.get("ut_linci")
    if f is None:
        return None, {}
    return {False: """
r1, r2 = lin(Xu, Yu, np.sqrt(vXu), np.sqrt(vYu))
smaj2 = r1**2
sg2 = r2**2
""", True: """
r1, r2 = lin(Xu + 1j*Xv, Yu + 1j*Yv, np.sqrt(vXu) + 1j*np.sqrt(vXv), np.sqrt(vYu) + 1j*np.sqrt(vYv))
smaj2 = np.real(r1)**2
smin2 = np.imag(r1)**2
sg2 = np.real(r2)**2
sth2 = np.imag(r2)**2
"""}, {"lin": f}


def solve(I, c, rep, rule="intervals", why="the propagated error of the constituent's own coefficients", code=None, names=None, extra=""):
    code = code or {False: linci.SCALAR, True: linci.ELLIPSE}
    two = c["twodim"]
    r = cf.run_solve(I, dict(c, kinds="none"))
    if r.value is None:
        rep.unsure(rule, "solve", f"raises {r.exc}")
        return None
    data = fitted(I, c, r)
    if data is None:
        rep.unsure(rule, "solve", "solution not modelled")
        return r
    base = spec(I, r.st, linci.COVARIANCE, two=num(two), **data)
    if base.exc is not None:
        rep.unsure(rule, "solve", f"covariance not evaluated: {base.exc}")
        return r
    fs = (("Lsmaj_ci", "smaj2"), ("Lsmin_ci", "smin2"), ("theta_ci", "sth2"), ("g_ci", "sg2")) if two else (("A_ci", "smaj2"), ("g_ci", "sg2"))
    seen = set()
    for k, p, cols in pairs(I, r, two):
        if len(cols) != 2:
            rep.unsure(rule, "solve", f"columns of a constituent not identified: {sorted(cols)}")
            continue
        if tuple(sorted(cols)) in seen:
            continue  # inferred: shares the columns of its reference
        seen.add(tuple(sorted(cols)))
        a, b = sorted(cols)
        outs = []
        for u, v in ((a, b), (b, a)):
            s = spec(I, base.st, linci.VARIANCES + extra + code[bool(two)], **(names or {}), p=num(u), q=num(v), **{n: base[n] for n in ("G", "H", "m")})
            outs.append(s)
        for f, y in fs:
            alts = [(g, q) for g, q in values(I, r, f) if k <= {(x, v) for x, v in g} and not any(x[0] == "c" and v is True for x, v in g)]
            if not alts:
                rep.unsure(rule, field_site(r, (f,)), "no value found")
            for g, q in alts:
                sq = tm.mkterm([(frozenset(x for x in g if x not in k), tm.scale(tm.mul(q, q), (tm.Fraction(10000, 38416), tm.Fraction(0))))])
                vs = [tm.teq(sq, s.term(y))[0] if s.exc is None else None for s in outs]
                v = True if True in vs else None if None in vs else False
                rep.check(v, rule, field_site(r, (f,)), f"{f} is not 1.96 times {why}", f)
    return r
