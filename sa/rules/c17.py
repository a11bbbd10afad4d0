"""C17: confidence intervals use the noise model that was asked for."""
from .. import linci
from . import c21
from .common import *

EXPLANATION = ("Dependence labels of the real and imaginary parts of the data and of what passes through a spectral estimate are propagated to every reported interval: with white=True none depends on a spectrum. With white=False the band spectra handed back by the "
               "spectral module are replaced by symbols with symbolic band edges, and every linearised interval of a list of arbitrary constituents must equal 1.96 times the package's own propagation of variances that keep the cosine/sine ratio of the least-squares "
               "variances and add up to the power of the band the constituent's own frequency lies in, of u for u and of v for v. The band spectra themselves must depend on the right part of the residual only.")
ASSUMPTIONS = ["exact arithmetic", "two disjoint bands with arbitrary edges stand for the table of bands", "the summed variance of a component is not zero"]

BANDS = 2


def configs(tier, seed):
    out = []
    for two in (False, True):
        for w in (True, False):
            for me in ("ols", "robust"):
                for tr in (True, False):
                    if not w:
                        out.append(dict(case="coloured", twodim=two, method=me, trend=tr, infer=None, constit="list", conf_int="linear", white=False, order_constit="frequency"))
                    for inf in (None, "one"):
                        if tr or tier != "quick":
                            out.append(dict(case="labels", twodim=two, white=w, method=me, trend=tr, infer=inf, conf_int="linear", kinds="all" if me == "ols" else "none"))
            out.append(dict(case="labels", twodim=two, white=w, conf_int="MC"))
        out.append(dict(case="coloured", twodim=two, infer="one", constit="list", conf_int="linear", white=False, order_constit="frequency"))
        out.append(dict(case="coloured", twodim=two, t="datetime", constit="list", conf_int="linear", white=False, order_constit="frequency"))
    for two in (False, True):
        for eq in (True, False):
            out.append(dict(case="spectra", twodim=two, equi=eq))
    return cf.named(out)


def run(I, c, rep):
    {"labels": labels, "coloured": coloured, "spectra": spectra}[c["case"]](I, c, rep)


def ci_fields(two):
    return ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if two else ("A_ci", "g_ci")


def labels(I, c, rep):
    r = cf.run_solve(I, c)
    if r.value is None:
        rep.unsure("white", "solve", f"raises {r.exc}")
        return
    for f in ci_fields(c["twodim"]):
        v = field(r, f)
        if not isinstance(v, Arr):
            rep.unsure("white", field_site(r, (f,)), "not an array")
            continue
        d = {str(x) for x in I.info(r.st, v).deps}
        sp = sorted(x for x in d if x.startswith("spec:"))
        if c["white"]:
            if sp:
                rep.bad("white", field_site(r, (f,)), f"white=True, but {f} depends on the residual spectrum ({', '.join(sp)})", f)
            else:
                rep.ok("white", field_site(r, (f,)))
        else:
            need = ["spec:re", "spec:im"] if c["twodim"] else ["spec"]
            miss = [n for n in need if not any(x.startswith(n) for x in sp)]
            if c["twodim"] and miss or not c["twodim"] and not sp:
                rep.bad("coloured", field_site(r, (f,)), f"white=False, but {f} does not depend on the residual spectrum ({', '.join(miss)})", f)
            else:
                rep.ok("coloured", field_site(r, (f,)))


EDGES = "fb = np.array([[lo0, hi0], [lo1, hi1]])\nuu = np.array([u0, u1])\nvv = np.array([v0, v1])\nuv = np.array([c0, c1])\n"


def symbols():
    return {n: world.scalar(n, nonneg=n[0] != "c", re=((0.0, float("inf")),) if n[0] != "c" else None) for n in ("lo0", "hi0", "lo1", "hi1", "u0", "u1", "v0", "v1", "c0", "c1")}


COLOUR = """
df = 1 / (24 * np.ptp(t) * len(t) / (len(t) - 1))
Su = 0.0
Sv = 0.0
Su = np.where((f >= lo0) & (f <= hi0), u0 * df, Su)
Sv = np.where((f >= lo0) & (f <= hi0), v0 * df, Sv)
Su = np.where((f >= lo1) & (f <= hi1), u1 * df, Su)
Sv = np.where((f >= lo1) & (f <= hi1), v1 * df, Sv)
du = vXu + vYu
dv = vXv + vYv
vXu = Su * vXu / du
vYu = Su * vYu / du
vXv = Sv * vXv / dv
vYv = Sv * vYv / dv
"""


def with_bands(I, c, calls):
    """solve() with symbols for the band spectra."""
    two = c["twodim"]

    def summary(I, f, args, kwargs, st):
        if f.mod.name != "utide.periodogram":
            return None
        env = I.bind_params(f, args, kwargs, st)
        bunch = next((m.env["Bunch"] for m in I.mods.values() if "Bunch" in m.env), None)
        if bunch is None or "t" not in env or "e" not in env:
            return None
        s = spec(I, st, EDGES, **symbols())
        kw = {"fbnd": "fb", "Puu": "uu"}
        if two:
            kw.update(Pvv="vv", Puv="uv")
        vals = {}
        for k, n in kw.items():
            v = s[n]
            vals[k] = I.newarr(list(v.axes), v.dt, I.info(s.st, v))
        calls.append((I.pick(env["t"], st), I.info(st, I.pick(env["t"], st))))
        return I.call(bunch, [], vals, st)

    I.summaries["band_psd"] = summary
    try:
        return cf.run_solve(I, dict(c, kinds="none"))
    finally:
        I.summaries.pop("band_psd", None)


def coloured(I, c, rep):
    two = c["twodim"]
    calls = []
    r = with_bands(I, c, calls)
    rule = "own band"
    if r.value is None or not calls:
        rep.unsure(rule, "solve", f"raises {r.exc}" if r.value is None else "the spectral module is not called by that name")
        return
    data = c21.fitted(I, c, r)
    code, names = c21.own(I)
    frq = field(r, "aux", "frq")
    if data is None or code is None or not isinstance(frq, Arr) or not isinstance(calls[0][0], Arr):
        rep.unsure(rule, "solve", "solution not modelled")
        return
    marks = {a: n[0] for n, x in symbols().items() if n[0] in "uv" for a in x.info.term.single().atoms()}
    for f in ci_fields(two):
        for g, q in c21.values(I, r, f):
            if edge(g) or q.const() is not None:
                continue
            miss = [n for n in "uv"[: 1 + two] if not any(marks.get(a) == n for a in tm.parts(q))]
            rep.check(not miss, "scaled", field_site(r, (f,)), f"a value of {f} does not depend on the power of the bands of {', '.join(miss)}", f)
    t = I.newarr(list(calls[0][0].axes), "f", calls[0][1])
    base = spec(I, r.st, linci.COVARIANCE, two=num(two), **data)
    if base.exc is not None:
        rep.unsure(rule, "solve", f"covariance not evaluated: {base.exc}")
        return
    fs = (("Lsmaj_ci", "smaj2"), ("Lsmin_ci", "smin2"), ("theta_ci", "sth2"), ("g_ci", "sg2")) if two else (("A_ci", "smaj2"), ("g_ci", "sg2"))
    seen = set()
    for k, p, cols in c21.pairs(I, r, two):
        if len(cols) != 2:
            rep.unsure(rule, "solve", f"columns of a constituent not identified: {sorted(cols)}")
            continue
        if tuple(sorted(cols)) in seen:
            continue
        seen.add(tuple(sorted(cols)))
        fq = [q for g, q in term(r, frq).alts if k <= set(g)]
        if len(fq) != 1:
            rep.unsure(rule, "solve", "frequency of a constituent not identified")
            continue
        fnum = Num("f", I.info(r.st, frq).rep(term=tm.T(fq[0])))
        a, b = sorted(cols)
        outs = []
        for u, v in ((a, b), (b, a)):
            s = spec(I, base.st, linci.VARIANCES + ("" if two else "vXv = vXu\nvYv = vYu\n") + COLOUR + code[bool(two)], p=num(u), q=num(v), t=t, f=fnum, **symbols(), **names, **{n: base[n] for n in ("G", "H", "m")})
            outs.append(s)
        for f, y in fs:
            alts = [(g, q) for g, q in c21.values(I, r, f) if k <= set(g) and not edge(g)]
            if not alts:
                rep.unsure(rule, field_site(r, (f,)), "no value found")
            sq = tm.mkterm([(frozenset(x for x in g if x not in k), tm.scale(tm.mul(q, q), (tm.Fraction(10000, 38416), tm.Fraction(0)))) for g, q in alts]) if alts else None
            vs = [tm.teq(sq, s.term(y))[0] if s.exc is None and sq is not None else None for s in outs]
            v = True if True in vs else None if None in vs else False
            rep.check(v, rule, field_site(r, (f,)), f"{f} is not 1.96 times the error propagated from variances scaled to the power of the constituent's own band (u for u, v for v)", f)


def edge(g):
    """Branches for exactly real coefficients are not a vector analysis."""
    return any(k[0] == "c" and v is True and "isreal" in str(k[1]) for k, v in g)


def spectra(I, c, rep):
    """The band spectra of u and v depend on their own part of the residual."""
    two = c["twodim"]
    st = world.fresh_state(I, "utide.periodogram")
    t = world.base_arr("t", [world.TAX])
    e = world.base_arr("e", [world.TAX], "c" if two else "f")
    fr = world.base_arr("f", [world.RAX])
    env = I.mods["utide.periodogram"].env
    if "band_psd" not in env:
        rep.unsure("own component", "band_psd", "no function of that name")
        return
    r = world.call(I, "utide.periodogram", "band_psd", [t, e, fr], {"equi": num(c["equi"])}, st)
    if r.value is None:
        rep.unsure("own component", "band_psd", f"raises {r.exc}")
        return
    for f, want, other in (("Puu", "re", "im"), ("Pvv", "im", "re")) if two else (("Puu", None, "im"),):
        v = field(r, f)
        if not isinstance(v, (Arr, Unknown)):
            rep.unsure("own component", f"band_psd {f}", "not found")
            continue
        d = {str(x) for x in I.deps(r.st, v)}
        where = field_site(r, (f,))
        if want and "part:" + want not in d:
            rep.bad("own component", where, f"{f} does not depend on the {'real' if want == 're' else 'imaginary'} part of the residual", f)
        elif "part:" + other in d and two:
            rep.bad("own component", where, f"{f} depends on the {'real' if other == 're' else 'imaginary'} part of the residual", f)
        else:
            rep.ok("own component", where)
        miss = {"e", "t"} - d
        if miss:
            rep.bad("of the residual", where, f"{f} does not depend on {sorted(miss)}", f)
        else:
            rep.ok("of the residual", where)
