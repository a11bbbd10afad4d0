"""C15: one definition of energy, SNR and the reconstruction criteria."""
from .. import coef as cs
from .common import *

EXPLANATION = ("(1) solve() is interpreted symbolically and the normal forms of the reported PE and SNR are compared with their definitions over the reported amplitudes or axes and intervals; the diagnostics table is compared with them. "
               "(2) reconstruct() is interpreted on an arbitrary coefficient structure (symbols for every number; an arbitrary number of constituents, and short lists of them): the prediction under a pair of thresholds or a list of names must have the "
               "normal form of the prediction of all constituents of the structure restricted, by the definition, to the selected ones; that of several constituents must be the sum of those of each.")
ASSUMPTIONS = ["exact arithmetic", "comparisons with NaN are not modelled: a constituent whose SNR or PE is NaN is outside the domain of this check"]
NAMES = ["K1", "M2", "N2"]


def configs(tier, seed):
    out = []
    ks = [("auto", None), ("list", None), ("list", "many"), ("list", "one"), ("abstract", None)]
    for two in (False, True):
        for k, i in ks:
            for o in ("PE", "frequency", "SNR", "list"):
                if o == "list" and k != "list":
                    continue
                for ci in ("linear",) if i else ("linear", "MC"):
                    if tier == "quick" and ci == "MC" and o != "PE":
                        continue
                    out.append(dict(case="solve", twodim=two, constit=k, infer=i, order_constit=o, conf_int=ci, white=True))
        for o in ("PE", "frequency"):
            out.append(dict(case="solve", twodim=two, constit="list", order_constit="PE", conf_int="none"))
        for n in (None, 1, 2, 3):
            for tr in (True, False):
                out.append(dict(case="reconstruct", twodim=two, n=n, trend=tr, conf_int="linear", white=True, constit="list", phase="Greenwich" if tr else "raw", nodal=True))
            out.append(dict(case="reconstruct", twodim=two, n=n, trend=True, conf_int="linear", white=True, constit="list", phase="raw" if n == 1 else "linear_time" if two else "Greenwich", nodal=False))
    return cf.named(out)


DEFS = """
if two:
    E = Lsmaj**2 + Lsmin**2
else:
    E = A**2
PE = 100 * E / np.sum(E)
"""
DEFN = """
if two:
    N = (Lsmaj_ci / 1.96)**2 + (Lsmin_ci / 1.96)**2
else:
    N = (A_ci / 1.96)**2
SNR = E / N
"""


def run(I, c, rep):
    (solve if c["case"] == "solve" else predict)(I, c, rep)


def solve(I, c, rep):
    two = c["twodim"]
    r = cf.run_solve(I, dict(c, kinds="none"))
    if r.value is None:
        rep.unsure("definition", "solve", f"raises {r.exc}")
        return
    ks = [k for k in ("A", "Lsmaj", "Lsmin", "A_ci", "Lsmaj_ci", "Lsmin_ci") if field(r, k) is not None]
    if not all(isinstance(field(r, k), Arr) for k in ks):
        rep.unsure("definition", "solve", "fields not available")
        return
    ci = c["conf_int"] != "none"
    s = spec(I, r.st, DEFS + (DEFN if ci else ""), two=num(two), **{k: field(r, k) for k in ks})
    if s.exc is not None:
        rep.unsure("definition", "solve", f"definition not evaluated: {s.exc}")
        return
    for k in ("PE", "SNR") if ci else ("PE",):
        v = field(r, k)
        if not isinstance(v, Arr):
            rep.unsure("definition", k, f"{k} not available")
            continue
        same(rep, "definition", field_site(r, (k,)), s.term(k), term(r, v), f"{k} is not the defined function of the reported values", key=k)
        if c["order_constit"] == "PE" and ci:
            d = field(r, "diagn", k)
            if not isinstance(d, Arr):
                rep.unsure("diagnostics", k, "not available")
                continue
            same(rep, "diagnostics", field_site(r, ("diagn", k)), term(r, v), term(r, d), f"diagnostics {k} differs from the reported {k}", key="diagn." + k)


def predict(I, c, rep):
    two = c["twodim"]
    r = cf.run_solve(I, dict(c, kinds="none"))
    if r.value is None:
        rep.unsure("selection", "solve", f"raises {r.exc}")
        return
    names = None if c["n"] is None else NAMES[:c["n"]]
    got = cs.arbitrary(I, r, names)
    if got is None:
        rep.unsure("selection", "reconstruct", "coefficient structure not modelled")
        return
    C, st, sym, ax = got

    def rec(C, st, **opts):
        I.frames[-1].mod = I.mods["utide._reconstruct"]
        st = st.copy()
        return world.run_reconstruct(I, C, st, t="python", kinds=(), verbose=False, **opts)

    def compare(rule, what, q1, st2, C2):
        q2 = rec(C2, st2, min_SNR=0, min_PE=0)
        for f in ("u", "v") if two else ("h",):
            a, b = (field(q, f) if q.value is not None else None for q in (q1, q2))
            if not isinstance(a, Arr) or not isinstance(b, Arr):
                rep.unsure(rule, f"{what}: {f}", f"{q1.exc} / {q2.exc}")
                continue
            same(rep, rule, f"{field_site(q1, (f,))} ({what})", term(q2, b), term(q1, a), f"{what}: {f} is not the prediction of the constituents that meet the criteria", key=f)

    # arbitrary positive thresholds, written so that the interpretations of the symbol
    # compare with typical ratios and shares of the constituents
    th = spec(I, st, "s = 4 * x\np = 30 * y", x=world.scalar("min_SNR", re=((0.1, 10.0),), nonneg=True), y=world.scalar("min_PE", re=((0.02, 2.0),), nonneg=True))
    pos = lambda n: th["s" if n == "min_SNR" else "p"]
    cases = [("default thresholds", {}, 2, 0), ("both thresholds", dict(min_SNR=pos("min_SNR"), min_PE=pos("min_PE")), None, None), ("SNR threshold", dict(min_SNR=pos("min_SNR"), min_PE=0), None, 0),
             ("PE threshold", dict(min_SNR=0, min_PE=pos("min_PE")), 0, None)]
    for what, opts, s0, p0 in cases:
        bind = {k: v for k, v in sym.items() if k in cs.PER}
        src = DEFS + DEFN + "keep = np.logical_and(SNR >= s, PE >= p)\n" + restrict(sym, "keep")
        v = lambda x, k: opts[k] if x is None else num(x)
        s = spec(I, st, src, two=num(two), s=v(s0, "min_SNR"), p=v(p0, "min_PE"), coef=C, **{k: x for k, x in sym.items()})
        if s.exc is not None:
            rep.unsure("selection", what, f"{s.exc}")
            continue
        compare("selection", what, rec(C, st, **opts), s.st, s["coef"])
    if c["n"] == 1:
        # a constituent that just meets the criteria is included
        amp, ci = ("(Lsmaj**2 + Lsmin**2)**0.5", ("Lsmaj_ci", "Lsmin_ci")) if two else ("A", ("A_ci",))
        s = spec(I, st, f"coef['{ci[0]}'] = 1.96 * {amp}\n" + "".join(f"coef['{k}'] = 0 * {k}\n" for k in ci[1:]), coef=C, **sym)
        for what, opts in (("SNR equal to min_SNR", dict(min_SNR=1, min_PE=0)), ("PE equal to min_PE", dict(min_SNR=0, min_PE=100))):
            if s.exc is not None:
                rep.unsure("selection", what, f"{s.exc}")
                continue
            compare("selection", what, rec(C, s.st, **opts), s.st, C)
    if names is None:
        return
    lists = [[], names[:1], list(reversed(names)), names[-1:] * 2, ["S2"], ["S2"] + names[-1:]] + ([names[:2]] if len(names) > 2 else [])
    for ns in lists:
        keep = [i for i, n in enumerate(names) if n in ns]
        s = spec(I, st, f"keep = np.array({keep!r}, dtype=int)\n" + restrict(sym, "keep"), coef=C, **sym)
        if s.exc is not None:
            rep.unsure("selection", str(ns), f"{s.exc}")
            continue
        st1 = st.copy()
        for form in ("list", "tuple"):
            compare("selection", f"constit={ns} as {form} of {names}", rec(C, st1, constit=world.strlist(I, st1, ns, "arg:constit", form)), s.st, s["coef"])
    if not c["nodal"]:
        additive(I, c, rep, rec, C, st, sym, names)


def restrict(sym, ix):
    out = []
    for k in sym:
        to = f"coef['aux']['{k}']" if k in ("frq", "lind") else f"coef['{k}']"
        if k in cs.CONST:
            continue
        out.append(f"{to} = {k}[{ix}]")
    return "\n".join(out) + "\n"


def written(t):
    return None if t is None else tm.tmap(tm.expand_sums, t)


def additive(I, c, rep, rec, C, st, sym, names):
    """The prediction of several constituents is the sum over each one."""
    two = c["twodim"]
    parts = {}
    for what in [[]] + [[n] for n in names] + [names]:
        keep = [names.index(n) for n in what]
        s = spec(I, st, f"keep = np.array({keep!r}, dtype=int)\n" + restrict(sym, "keep"), coef=C, **sym)
        q = rec(s["coef"], s.st, min_SNR=0, min_PE=0) if s.exc is None else None
        for f in ("u", "v") if two else ("h",):
            v = field(q, f) if q is not None and q.value is not None else None
            parts[tuple(what), f] = (q, v)
    for f in ("u", "v") if two else ("h",):
        vs = {w: v for (w, g), (q, v) in parts.items() if g == f}
        q = parts[tuple(names), f][0]
        if not all(isinstance(v, Arr) for v in vs.values()):
            rep.unsure("each once", f, "prediction not available")
            continue
        n = len(names)
        ops = {k: parts[w, f] for k, w in [("p", ())] + [(f"p{i}", (names[i],)) for i in range(n)]}
        src = "x = " + " + ".join(f"p{i}" for i in range(n)) + f" - {n - 1} * p"
        s = spec(I, q.st, src, **{k: I.newarr(list(v.axes), v.dt, I.info(x.st, v)) for k, (x, v) in ops.items()})
        same(rep, "each once", field_site(q, (f,)), written(s.term("x")) if s.exc is None else None, written(term(q, vs[tuple(names)])), f"{f} of {n} constituents is not the sum of the predictions of each", key=f)
