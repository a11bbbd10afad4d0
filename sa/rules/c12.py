"""C12: the prediction is the fitted model."""
from .common import *

EXPLANATION = ("Algebraic value numbering: solve() and then reconstruct() (all constituents, the solution's own times) are interpreted symbolically for a covering array of option "
               "combinations. The fitted model is the real (vector: real and imaginary) part of the product of the model matrix given to the least-squares solver and the coefficients it returned, "
               "both taken from the analysed call. Its normal form is compared with that of every predicted component, for every guarded alternative (equally spaced or not, sort position, validity); "
               "complex logarithm/exponential, conjugation, modulo-degree wrapping, permutation of constituents and inference sums are normalised away.")
ASSUMPTIONS = ["exact arithmetic: rounding is not modelled", "lstsq returns one coefficient per column in column order"]


def configs(tier, seed):
    cs = grid(tier, seed, drop=("white",))
    extra = [dict(constit=k, infer=i, twodim=w, method=m, order_constit=o, conf_int="linear" if o == "SNR" else "none")
             for k, i, w, m, o in (("list", "many", True, "ols", "frequency"), ("auto", "many", True, "ols", None), ("auto", None, False, "ols", "SNR"),
                                   ("abstract", None, True, "ols", None), ("list", "many", False, "robust", "list"), ("list", None, True, "robust", None))]
    extra += [dict(constit="list", phase=p, nodal=n, twodim=w, conf_int="none") for p in ("Greenwich", "linear_time", "raw") for n in (True, False, "linear_time") for w in (False, True)]
    return [c for c in cs if c.get("conf_int") != "MC"] + cf.named(extra)


def model(I, st, B, Baxes, b, twodim):
    """Real and imaginary parts of B @ b."""
    arr = I.newarr(list(Baxes), "c", B)
    s = spec(I, st, "x = np.dot(B, b)\nxr = np.real(x)\nxi = np.imag(x)", B=arr, b=b)
    return s


def coefficients(I, c, r):
    """Least-squares model matrix and the coefficients of the solution."""
    ls = [e for e in r.events if e["kind"] == "lstsq" and e["B"] is not None]
    if not ls:
        return None
    e = ls[0]
    if c.get("method") == "robust":
        b = field(r, "rf", "b")
        return (e["B"], e["Baxes"], b) if isinstance(b, Arr) else None
    y = I.newarr(list(e["xaxes"]), "c" if c.get("twodim") else "f", e["x"])
    arr = I.newarr(list(e["Baxes"]), "c", e["B"])
    s = spec(I, r.st, "m = np.linalg.lstsq(B, y, None)[0]", B=arr, y=y)
    return e["B"], e["Baxes"], s["m"]


def ok_guards(t):
    return frozenset((k, 1) for g, _ in t.alts for k, v in g if k[0] == "ok")


def run(I, c, rep):
    tr = c.get("t", "python")
    r = cf.run_solve(I, c)
    if r.value is None:
        rep.unsure("model=prediction", "solve", f"raises {r.exc}")
        return
    got = coefficients(I, c, r)
    if got is None:
        rep.unsure("model=prediction", "solve", "no least-squares solution found")
        return
    B, Baxes, b = got
    st = r.st.copy()
    s = model(I, st, B, Baxes, b, c.get("twodim"))
    for name, opts in (("all constituents", dict(min_SNR=0, min_PE=0)), ("all named", dict(constit=world.strlist(I, st, cf.all_names(c), "arg:constit")) if c.get("constit") == "list" else None)):
        if opts is None:
            continue
        q = cf.run_reconstruct(I, c, r, st.copy(), same_time=True, **opts)
        if q.value is None:
            rep.unsure("model=prediction", name, f"reconstruct raises {q.exc}")
            continue
        for part, f in (("xr", "u"), ("xi", "v")) if c.get("twodim") else (("xr", "h"),):
            h = field(q, f)
            x = s[part] if s.exc is None else None
            if not isinstance(h, Arr) or len(h.axes) != 1 or not isinstance(x, Arr) or len(x.axes) != 1:
                rep.unsure("model=prediction", f"{name}: {f}", f"shapes {getattr(h, 'axes', h)} {getattr(x, 'axes', x)}"[:200])
                continue
            ht = term(q, h)
            xt = tm.rename_axis(s.term(part), x.axes[0], h.axes[0])
            same(rep, "model=prediction", f"{field_site(q, (f,))} / {field_site(r, ('g',))} ({name})", xt, ht, f"{name}: the predicted {f} is not the fitted model", key=f, under=ok_guards(ht))
