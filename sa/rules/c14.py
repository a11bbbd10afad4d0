"""C14: reported quantities stay within their documented ranges."""
from .common import *

EXPLANATION = ("Interval abstract interpretation of solve(): every amplitude, phase, inclination, interval, SNR, PE and weight of the result gets an interval that covers all inputs, which must lie in the documented range; where the interval "
               "is not enough, the value's normal form is searched for an interpretation that leaves the range. |Lsmin| <= Lsmaj and sum(PE) = 100 are decided on the normal forms. Every robust weight function is analysed for an arbitrary residual.")
ASSUMPTIONS = ["exact arithmetic", "at least one constituent has a non-zero amplitude", "no weight function is tuned with a negative or complex constant"]

INF = float("inf")
RANGES = {"A": (0, INF), "Lsmaj": (0, INF), "g": (0, 360), "theta": (0, 180), "SNR": (0, INF), "PE": (0, INF), "weights": (0, 1),
          **{k: (0, INF) for k in ("A_ci", "Lsmaj_ci", "Lsmin_ci", "g_ci", "theta_ci")}}
FREE = ("lstsq", "lstsq:rss", "mvn", "rng")


def configs(tier, seed):
    out = [dict(c, case="grid") for c in grid(tier, seed)]
    for two in (False, True):
        for ci in ("linear", "MC", "none"):
            for inf in (None, "many"):
                if inf and ci == "MC":
                    continue
                for o in ("PE", "frequency") if ci == "none" else (None, "SNR"):
                    out.append(dict(case="own", twodim=two, conf_int=ci, infer=inf, white=True, trend=True, constit="list", order_constit=o, nodal=False, phase="raw"))
    for two in (False, True):
        for m in (2, 3):
            out.append(dict(case="own", twodim=two, conf_int="none", infer=None, white=True, trend=True, constit="list", order_constit="PE", nodal=False, phase="raw", method="robust", maxit=m))
    out.append(dict(case="weights"))
    return cf.named(out)


def inside(iv, lo, hi):
    return iv is not None and all(a >= lo - 1e-9 and b <= hi + 1e-9 for a, b in iv)


def fixed(p):
    """Is every over-approximated quantity of p inside something that may
    take any value anyway (a least-squares solution, random numbers)?"""
    seen = set()

    def go(x):
        if isinstance(x, (tm.Poly, tm.Atom)):
            if x in seen:
                return True
            seen.add(x)
        if isinstance(x, tm.Poly):
            return all(go(a) for a in x.atoms())
        if isinstance(x, tm.Term):
            return all(go(q) for _, q in x.alts)
        if isinstance(x, tm.Atom):
            if x.kind == "op" and x.key[0] in FREE:
                return True
            if x.kind == "op" and x.key[0] in tm.IMPRECISE:
                return False
            return go(x.key)
        if isinstance(x, (tuple, frozenset)):
            return all(go(y) for y in x)
        return True

    return go(p)


def outside(t, lo, hi):
    """An alternative and value outside [lo, hi], None if none was found."""
    for g, p in t.alts:
        if not fixed(p):
            continue
        for i in range(12):
            m = tm.extra(i)
            try:
                if m.degenerate(p) or not tm.holds(m, tm.ordering(g, p)):
                    continue
                x = m.ev(p, {})
            except (OverflowError, RecursionError, ZeroDivisionError, ValueError):
                continue
            if abs(x) > 1e20 or isinstance(x, complex) and abs(x.imag) > 1e-9 * (1 + abs(x.real)):
                continue
            x = x.real if isinstance(x, complex) else x
            if x < lo - 1e-6 * (1 + abs(lo)) or hi < INF and x > hi + 1e-6 * (1 + abs(hi)):
                return p, x
    return None


def ranges(rep, r, path, v, f):
    lo, hi = RANGES[f]
    where = field_site(r, path)
    n = name_of(path)
    if not isinstance(v, (Num, Arr)):
        rep.unsure("range", where, "not an array")
        return
    i = r.I.info(r.st, v)
    if inside(i.re, lo, hi) and (i.im is None or inside(i.im, 0, 0)):
        rep.ok("range", where, f"{n} in {i.re}")
        return
    w = outside(i.term, lo, hi) if i.term is not None else None
    if w:
        rep.bad("range", where, f"{n} = {show(w[0])} can be {w[1]:.6g}, outside [{lo}, {hi}]", n)
    else:
        rep.unsure("range", where, f"{n} lies in {i.re}, [{lo}, {hi}] expected")


def run(I, c, rep):
    if c["case"] == "weights":
        weights(I, rep)
        return
    if "maxit" in c:
        st = world.fresh_state(I)
        r = cf.run_solve(I, c, st, robust_kw=world.pydict(I, st, {"weight_function": Known("cauchy"), "maxit": num(c["maxit"])}, "arg:robust_kw"))
    else:
        r = cf.run_solve(I, c)
    if r.value is None:
        rep.unsure("range", "solve", f"raises {r.exc}")
        return
    for p, v in walk(r):
        n = p[-1]
        if n in RANGES and p[0] != "aux" and (len(p) == 1 or p[0] == "diagn"):
            ranges(rep, r, p, v, n)
    if c["twodim"]:
        axes(rep, r)
    for path in (("PE",), ("diagn", "PE")):
        v = field(r, *path)
        if isinstance(v, Arr) and len(v.axes) == 1:
            total = tm.tsum(term(r, v), v.axes[0])
            t = tm.teq(total, tm.T(tm.pconst(100)))[0] if total is not None else None
            if t is not True:
                t = None
                if c["case"] == "own" and total is not None and outside(total, 100, 100):
                    t = False
            rep.check(t, "total", field_site(r, path), "PE does not add up to 100", name_of(path))


def axes(rep, r):
    """Lsmaj +- Lsmin are non-negative."""
    a, b = field(r, "Lsmaj"), field(r, "Lsmin")
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.axes != b.axes:
        rep.unsure("minor axis", "solve", "axes not modelled")
        return
    where = field_site(r, ("Lsmin",))
    ta, tb = term(r, a), term(r, b)
    verdict, w = True, None
    for g1, p in ta.alts:
        for g2, q in tb.alts:
            if not tm.consistent(g1, g2):
                continue
            for d in (tm.add(p, q), tm.sub(p, q)):
                if nonneg(d):
                    continue
                x = outside(tm.mkterm([(g1 | g2, d)]), 0, INF)
                if x:
                    verdict, w = False, x
                elif verdict:
                    verdict = None
    rep.check(verdict, "minor axis", where, f"|Lsmin| exceeds Lsmaj: Lsmaj -+ Lsmin = {show(w[0])} can be {w[1]:.6g}" if w else "sign of Lsmaj -+ Lsmin not established", "Lsmin")


def nonneg(p):
    """Sum of products that cannot be negative."""
    for mono, co in p.m.items():
        if co[1] or co[0] < 0:
            return False
        for i, e in mono:
            a = tm.Atom.byid[i]
            if a.nonneg or a.kind == "abs" or a.real and isinstance(e, int) and e % 2 == 0:
                continue
            if a.kind == "fn" and a.key[0] == "max" and any(isinstance(q, tm.Poly) and nonneg(q) for q in a.key[1:]):
                continue
            return False
    return True


class At(tm.Model):
    """Every element of the residual has the same absolute value."""

    def __init__(self, seed, name, value):
        super().__init__(seed)
        self.name, self.value = name, value

    def rnd(self, key, a):
        if a.kind == "sym" and a.key[0] == self.name:
            return self.value * (0.6 + 0.8j) if not a.real else self.value
        return super().rnd(key, a)


def weights(I, rep):
    """The weight functions robustfit chooses from."""
    env = I.mods["utide.robustfit"].env if "utide.robustfit" in I.mods else {}
    st = world.fresh_state(I, "utide.robustfit")
    cell = st.heap.get(getattr(I.pick(env.get("wfuncdict"), st), "oid", None))
    if not isinstance(cell, DictCell):
        rep.unsure("weights", "utide/robustfit.py", "no table of weight functions")
        return
    for k, f in cell.d.items():
        fitted(I, rep, k)
        for real in (True, False):
            s = st.copy()
            x = world.base_arr("resid", [world.TAX], "f" if real else "c", im=((0.0, 0.0),) if real else None)
            where = f"robustfit weight function {k}"
            try:
                v = I.pick(I.call(I.pick(f, s), [x], {}, s), s)
            except AbsRaise as e:
                rep.unsure("weights", where, f"raises {e.exc}")
                continue
            if not isinstance(v, (Arr, Num)):
                rep.unsure("weights", where, "not an array")
                continue
            i = I.info(s, v)
            if inside(i.re, 0, 1):
                rep.ok("weights", where, f"in {i.re}")
                continue
            hit = None
            if i.term is not None:
                for n in range(0, 160):
                    for sg in (1, -1) if real else (1,):
                        m = At(1, "resid", sg * 10 ** (n / 16 - 6))
                        for g, p in i.term.alts:
                            try:
                                y = m.ev(p, {})
                            except (OverflowError, ZeroDivisionError, ValueError):
                                continue
                            y = y.real if isinstance(y, complex) else y
                            if fixed(p) and tm.holds(m, tm.ordering(g, p)) and not -1e-6 <= y <= 1 + 1e-6:
                                hit = hit or (m.value, y)
            if hit:
                rep.bad("weights", where, f"weight function {k} gives {hit[1]:.6g} for a normalised residual of {hit[0]:.6g}", k)
            else:
                rep.unsure("weights", where, f"interval {i.re}; no residual with a weight outside [0, 1] found")


def fitted(I, rep, k):
    """The weights robustfit returns, for an arbitrary leverage in (0, 1)."""

    def leverage(I, f, args, kwargs, st):
        x = I.pick(list(I.bind_params(f, args, kwargs, st).values())[0], st)
        if not isinstance(x, Arr):
            return None
        v = world.base_arr("lev", [x.axes[0]], "f", re=((0.0, 1.0),), nonneg=True)
        half = tm.T(tm.scale(I.info(st, v).term.single(), (tm.Fraction(1, 2), tm.Fraction(0))))
        return I.newarr([x.axes[0]], "f", I.info(st, v).rep(term=half))

    for dt in "cf":
        st = world.fresh_state(I, "utide.robustfit")
        X = world.base_arr("X", [world.TAX, ("lit", 3)], dt, None if dt == "c" else ((-INF, INF),), im=None if dt == "c" else ((0.0, 0.0),))
        y = world.base_arr("y", [world.TAX], dt, None if dt == "c" else ((-INF, INF),), im=None if dt == "c" else ((0.0, 0.0),))
        I.summaries["leverage"] = leverage
        try:
            r = world.call(I, "utide.robustfit", "robustfit", [X, y], {"weight_function": Known(k), "maxit": num(3)}, st)
        finally:
            I.summaries.pop("leverage", None)
        w = field(r, "w") if r.value is not None else None
        if not isinstance(w, Arr):
            rep.unsure("range", f"robustfit {k}", f"weights not modelled ({r.exc})")
            continue
        ranges(rep, r, ("w",), w, "weights")
