"""C19: the robust fit returns one consistent solution."""
from .common import *

EXPLANATION = ("Path-sensitive value numbering of robustfit(): the iteration is unfolded for iteration limits 1 to 6, every way of leaving it (limit, converged, got worse) is a guarded alternative, "
               "and on each alternative the returned coefficients, singular values, rank and residual statistic are compared, as normal-form terms, with those of the weighted least-squares problem "
               "posed by the returned weights. Each weight function in the registry is analysed for a default tuning constant, elementwise action on an array of arbitrary length, and range. "
               "solve(method='robust') must report the coefficients and weights of that result.")
ASSUMPTIONS = ["numpy.linalg.lstsq is a function of its arguments", "iteration limits above 6 repeat the same transitions"]
TECHNIQUE = "static analysis: path-sensitive abstract interpretation / value numbering over the unrolled loop"

DATA = ("base", "n")
PAR = ("base", "p")


def weight_names(I):
    st = world.fresh_state(I, "utide.robustfit")
    out = []
    for n in ("wfuncdict", "tune_defaults"):
        v = I.pick(I.mods["utide.robustfit"].env.get(n), st) if n in I.mods["utide.robustfit"].env else None
        c = st.heap.get(getattr(v, "oid", None))
        out.append({str(k): x for k, x in c.d.items()} if isinstance(c, DictCell) else None)
    return out


def configs(tier, seed):
    cs = [{"name": "registry", "kind": "registry"}]
    for w in ("andrews", "bisquare", "cauchy", "fair", "huber", "logistic", "ols", "talwar", "welsch"):
        for m in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6)):
            for d in ("c", "f"):
                cs.append({"name": f"{w} maxit={m} data={d}", "kind": "fit", "wf": w, "maxit": m, "dt": d, "tune": None})
    for m in (4, 5, 6):
        cs.append({"name": f"default maxit={m}", "kind": "fit", "wf": None, "maxit": m, "dt": "c", "tune": None})
    cs.append({"name": "cauchy tuned", "kind": "fit", "wf": "cauchy", "maxit": 3, "dt": "c", "tune": "sym"})
    for two in (False, True):
        for infer in (None, "one"):
            cs.append({"name": f"solve twodim={two} infer={infer}", "kind": "solve", "twodim": two, "infer": infer, "cost": 5})
    return cs


WLS = """
B, R, K, S = np.linalg.lstsq(w[:, None] * X, w * y, 1)
B2, R2, K2, S2 = np.linalg.lstsq(np.sqrt(w)[:, None] * X, np.sqrt(w) * y, 1)
"""
RMS = "rms = np.sqrt(np.mean(np.abs(y - np.dot(X, b)) ** 2))"


POINTS = [s * x for x in (0.0, 1e-12, 1e-9, 1e-7, 1e-3, 0.1, 0.3, 0.5, 0.9, 0.999, 1.0, 1.001, 1.2, 1.5, 2.0, 2.5, 3.0, 3.1, 3.2, 4.0, 5.0, 7.0, 10.0, 20.0, 100.0) for s in (1, -1)]


class At(tm.Model):
    """Interpretation with one symbol at a given value."""

    def __init__(self, name, v):
        super().__init__(0)
        self.name, self.v = name, v

    def rnd(self, key, a):
        return self.v if a.kind == "sym" and a.key[0] == self.name else super().rnd(key, a)


def run(I, c, rep):
    globals()["_" + c["kind"]](I, c, rep)


def _registry(I, c, rep):
    funcs, tunes = weight_names(I)
    if not funcs:
        rep.unsure("registry", "wfuncdict")
        return
    for n, f in sorted(funcs.items()):
        where = f"utide/robustfit.py weight function {n}"
        if tunes is not None:
            rep.check(n in tunes, "default-tuning", where, f"weight function '{n}' has no default tuning constant", key=n)
        st = world.fresh_state(I, "utide.robustfit")
        r = world.base_arr("r", [DATA], "f", None, 0, NONE, None, root="arg:r")
        run = world.Run(I, st, None, None, [], set(), None)
        try:
            v = I.call(f, [r], {}, st)
        except AbsRaise as e:
            rep.bad("accepts-arrays", where, f"raises {e.exc.name}: {e.exc.msg} for an array of residuals", key=n)
            continue
        if not isinstance(v, Arr):
            rep.check(False if isinstance(v, (Num, Known)) else None, "accepts-arrays", where, "does not return one weight per residual", key=n)
            continue
        rep.check(v.axes == (DATA,), "accepts-arrays", where, "does not return one weight per residual", key=n)
        i = I.info(st, v)
        in_range(rep, where, i, 0.0, 1.0, n)


def in_range(rep, where, i, lo, hi, key):
    if i.re is not None:
        a, b = iv_bounds(i.re)
        if a >= lo - 1e-12 and b <= hi + 1e-12:
            rep.ok("weight-range", where)
            return
    for g, p in i.term.alts:
        for v in POINTS:
            m = At("r", v)
            try:
                x = m.ev(p, {})
            except (OverflowError, RecursionError):
                continue
            x = x.real if isinstance(x, complex) else x
            if (x < lo - 1e-6 or x > hi + 1e-6) and not tm.imprecise(p):
                rep.bad("weight-range", where, f"weight {x:.3g} for some residual lies outside [0, 1]: {show(p)}", key=key)
                return
    rep.unsure("weight-range", where, str(i.re))


def _fit(I, c, rep):
    st = world.fresh_state(I, "utide.robustfit")
    X = world.base_arr("X", [DATA, PAR], c["dt"], None, 0, NONE, None, root="arg:X")
    y = world.base_arr("y", [DATA], c["dt"], None, 1, NONE, None, root="arg:y")
    kw = {"maxit": num(c["maxit"])}
    if c["wf"]:
        kw["weight_function"] = Known(c["wf"])
    if c["tune"]:
        kw["tune"] = world.scalar("tune", re=((0.5, 5.0),), deps=frozenset(["tune"]))
    r = world.call(I, "utide.robustfit", "robustfit", [X, y], kw, st)
    if r.value is None:
        rep.bad("fit-works", f"{r.exc.loc[0]}:{r.exc.loc[2]} ({r.exc.loc[1]})", f"robustfit raises {r.exc.name}: {r.exc.msg}", key=c["wf"])
        return
    w, b, s, rk, rms = (field(r, k) for k in ("w", "b", "s", "rank", "rms_resid"))
    if not isinstance(w, Arr) or not isinstance(b, Arr):
        rep.unsure("consistent", "robustfit", "w or b not returned as arrays")
        return
    n = 0
    for g, wk in by_alt(I, r.st, w):
        n += 1
        o = spec(I, r.st, WLS, "utide.robustfit", w=wk, X=X, y=y)
        if o.exc is not None:
            rep.unsure("consistent", "robustfit", str(o.exc))
            return
        for what, v, k in (("b", b, "B"), ("s", s, "S"), ("rank", rk, "K")):
            if v is None:
                continue
            t = term(r, v)
            e, wit = tm.teq(o.term(k), t, g)
            if e is False and tm.teq(o.term(k + "2"), t, g)[0] is True:
                e = True
            path = f"leaving the iteration on path {n}"
            rep.check(e, "consistent", field_site(r, (what,)), f"{path}: {what} is not that of the weighted least-squares problem with the returned weights", key=what)
    if rms is not None:
        for g, bk in by_alt(I, r.st, b):
            o = spec(I, r.st, RMS, "utide.robustfit", b=bk, X=X, y=y)
            e, wit = tm.teq(o.term("rms"), term(r, rms), g) if o.exc is None else (None, None)
            rep.check(e, "residual-statistic", field_site(r, ("rms_resid",)), "rms_resid is not that of the returned coefficients", key="rms_resid")


def _solve(I, c, rep):
    calls = []

    def hook(I, f, env, st):
        calls.append((f, dict(env)))

    I.trace_calls["robustfit"] = hook
    try:
        r = cf.run_solve(I, {"twodim": c["twodim"], "infer": c["infer"], "method": "robust", "conf_int": "linear", "white": True, "constit": "list"})
    finally:
        I.trace_calls.pop("robustfit", None)
    if r.value is None:
        rep.unsure("analysis", "solve", f"raises {r.exc}")
        return
    W, w = field(r, "weights"), field(r, "rf", "w")
    if isinstance(W, Arr) and isinstance(w, Arr):
        same(rep, "reported-weights", field_site(r, ("weights",)), term(r, W), term(r, w), "coef.weights are not the weights of the robust solution", key="weights")
