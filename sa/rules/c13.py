"""C13: nodal and phase options do what they say."""
from .common import *

EXPLANATION = ("Differential value numbering of the model matrix over all nine combinations of nodal and phase, with arbitrary times, constituents and latitude, each compared algebraically with the others and with a second "
               "analysis in which the only time is the reference time itself: raw phase without modulation is exp(2 pi i 24 f (t - reftime)); linear_time phase is that times the Greenwich factor at the reference time; linear_time "
               "modulation is the full modulation at the reference time; modulation does not depend on the phase option nor the argument on the nodal option; without modulation nothing depends on latitude or satellites; Greenwich "
               "arguments use no time but the sample's own.")
ASSUMPTIONS = ["exact arithmetic: wrapping by whole cycles is exact"]

NODAL = (True, False, "linear_time")
PHASE = ("Greenwich", "linear_time", "raw")


def configs(tier, seed):
    out = [dict(twodim=w, trend=tr, method=m, names=n, t=t) for w, tr, m, n, t in (
        (False, True, "ols", 3, "python"), (True, False, "ols", 1, "matlab"), (False, False, "robust", 2, "datetime"), (True, True, "ols", 2, "date"))]
    return cf.named(out)


def go(I, c, nodal, phase, at=None):
    st = world.fresh_state(I, "utide._solve")
    tm.PARITY[world.TAX] = 0
    t, ep = c["t"], None
    if at is not None:
        args = [Arr([tm.ONEAX], "f", Info(at, frozenset(["t"]), None, ((0.0, 0.0),), 0))]
        names = [tm.ONEAX]
        ep = Known("python")
    else:
        names = [world.TAX]
        args = [world.series("t", world.TAX, (), 0, **(dict(dt="M", unit="ms") if t == "datetime" else {}))]
        ep = world.date_symbol("epoch0") if t == "date" else None if t == "datetime" else Known(t)
    args += [world.base_arr(x, names, deg=1, root="arg:" + x) for x in (("u", "v") if c["twodim"] else ("u",))]
    ns = cf.NAMES[:c["names"]]
    kw = dict(verbose=num(False), lat=world.scalar("lat", re=world.LATR), trend=num(c["trend"] and at is None), conf_int=Known("none"), method=Known(c["method"] if at is None else "ols"),
              constit=world.strlist(I, st, ns, "arg:constit"), order_constit=world.strlist(I, st, ns, "arg:order_constit"),
              nodal=world.opt_value(I, st, nodal), phase=Known(phase))
    if ep is not None:
        kw["epoch"] = ep
    r = world.call(I, "utide._solve", "solve", args, kw, st)
    ls = [e for e in r.events if e["kind"] == "lstsq" and e["B"] is not None]
    n = len(ns)
    cols = None
    if r.value is not None and ls:
        B, ax = ls[0]["B"], ls[0]["Baxes"]
        arr = I.newarr(list(ax), "c", B)
        s = spec(I, r.st, f"E = B[:, :{n}]", B=arr)
        if s.exc is None and isinstance(s["E"], Arr):
            cols = s["E"]
            return r, ls[0], I.info(s.st, cols), cols.axes
    return r, None, None, None


SRC_RAW = "X = np.exp(2j * np.pi * 24 * (t - tref)[:, None] * frq[None, :])"


def mul(a, b):
    return tm.tmap(tm.mul, a, b)


def names_in(t):
    """Symbols a term mentions."""
    out = set()

    def go(x):
        if isinstance(x, tm.Term):
            for g, p in x.alts:
                go(p)
        elif isinstance(x, tm.Poly):
            for mono in x.m:
                for i, _ in mono:
                    go(tm.Atom.byid[i])
        elif isinstance(x, tm.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind == "sym":
                out.add(str(x.key[0]))
            go(x.key)
            go(x.axes)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)

    seen = set()
    go(t)
    return out


def run(I, c, rep):
    R = {(n, p): go(I, c, n, p) for n in NODAL for p in PHASE}
    bad = [k for k, v in R.items() if v[1] is None]
    for k in bad:
        rep.unsure("options", f"nodal={k[0]} phase={k[1]}", f"no model matrix: {R[k][0].exc}")
    if bad:
        return
    r0 = R[False, "raw"][0]
    tref = field(r0, "aux", "reftime")
    if not isinstance(tref, (Num, Arr)) or term(r0, tref).single() is None:
        rep.unsure("options", "reference time", "several alternatives")
        return
    tt = term(r0, tref)
    Q = {(n, p): go(I, c, n, p, tt) for n in NODAL for p in PHASE}
    S = {k: site(v[1]) for k, v in R.items()}
    W = {k: v[2].term for k, v in R.items()}

    def at_ref(k):
        """Columns at the reference time, on the column axis of the full run."""
        q = Q[k]
        if q[2] is None:
            return None
        return tm.rename_axis(q[2].term, q[3][1], R[k][3][1]) if q[3][1] != R[k][3][1] else q[2].term

    def rule(name, k, a, b, detail):
        if a is None or b is None:
            rep.unsure(name, S[k], "not available")
        else:
            same(rep, name, f"{S[k]} nodal={k[0]} phase={k[1]}", a, b, detail, key=f"{name} {k}")

    # reference time and frequencies do not depend on the options
    for k, v in R.items():
        for f in (("aux", "reftime"), ("aux", "frq")):
            same(rep, "same reference", f"{field_site(v[0], f)} nodal={k[0]} phase={k[1]}", term(v[0], field(v[0], *f)), term(r0, field(r0, *f)), f"{name_of(f)} depends on the nodal or phase option", key=name_of(f))
    # raw
    frq, raw = field(r0, "aux", "frq"), R[False, "raw"]
    t = I.newarr([raw[3][0]], "f", I.info(r0.st, internal_time(I, r0, raw, c)))
    s = spec(I, r0.st, SRC_RAW, t=t, tref=tref, frq=frq)
    x = s["X"] if s.exc is None else None
    if isinstance(x, Arr) and len(x.axes) == 2:
        xt = s.term("X")
        if x.axes[1] != raw[3][1]:
            xt = tm.rename_axis(xt, x.axes[1], raw[3][1])
        rule("raw phase", (False, "raw"), W[False, "raw"], xt, "without nodal modulation, raw arguments are not 24 f (t - reftime) cycles")
    else:
        rep.unsure("raw phase", S[False, "raw"], "not available")
    # linear_time phase
    g0 = at_ref((False, "Greenwich"))
    rule("linear phase", (False, "linear_time"), W[False, "linear_time"], None if g0 is None else mul(W[False, "raw"], g0), "linear_time arguments are not the Greenwich argument at the reference time plus 24 f (t - reftime)")
    # linear_time modulation
    m0 = at_ref((True, "raw"))
    rule("linear modulation", ("linear_time", "raw"), W["linear_time", "raw"], None if m0 is None else mul(W[False, "raw"], m0), "linear_time modulation is not the modulation at the reference time")
    # independence
    for n in (True, "linear_time"):
        for p in ("Greenwich", "linear_time"):
            rule("independent options", (n, p), mul(W[n, p], W[False, "raw"]), mul(W[n, "raw"], W[False, p]), f"modulation and argument are not independent for nodal={n}, phase={p}")
    # the options have an effect
    for a, b, what in (((True, "raw"), ("linear_time", "raw"), "nodal=True evaluates the modulation at one time only"), ((True, "raw"), (False, "raw"), "nodal=True applies no modulation"),
                       (("linear_time", "raw"), (False, "raw"), "nodal='linear_time' applies no modulation"), ((False, "Greenwich"), (False, "linear_time"), "Greenwich arguments are linear in time"),
                       ((False, "Greenwich"), (False, "raw"), "Greenwich arguments are raw"), ((False, "linear_time"), (False, "raw"), "linear_time arguments start at zero")):
        v, _ = tm.teq(W[a], W[b])
        rep.check(False if v is True else True, "options have an effect", f"{S[a]} nodal={a[0]} phase={a[1]}", what, key=what)
    # no influence of latitude and satellites without modulation
    for p in PHASE:
        r, e, i, _ = R[False, p]
        sats = {x for x in names_in(i.term) if x.startswith("sat.")}
        rep.check(not sats, "no satellites", f"{S[False, p]} phase={p}", f"nodal=False: model matrix uses {sorted(sats)}", key="sat")
        lat = "lat" in names_in(i.term) or "lat" in {str(d) for d in i.deps}
        rep.check(not lat, "no latitude", f"{S[False, p]} phase={p}", "nodal=False: model matrix depends on the latitude", key="lat")
        for path, v in walk(r):
            if path == ("aux", "lat") or path[:2] == ("aux", "opt") or isinstance(v, Unknown):
                continue
            rep.check("lat" not in {str(d) for d in I.info(r.st, v).deps}, "no latitude", f"{field_site(r, path)} phase={p}", f"nodal=False: {name_of(path)} depends on the latitude", key="lat")
        q = reconstruct(I, c, r)
        if q.value is None:
            rep.unsure("no latitude", "reconstruct", f"raises {q.exc}")
        else:
            for f in ("u", "v") if c["twodim"] else ("h",):
                h = field(q, f)
                if isinstance(h, Arr):
                    rep.check("lat" not in {str(d) for d in I.info(q.st, h).deps}, "no latitude", f"{field_site(q, (f,))} phase={p}", f"nodal=False: predicted {f} depends on the latitude", key="lat")
    for n in (True, "linear_time"):
        for p in PHASE:
            nm = names_in(W[n, p])
            rep.check(None if not nm else "lat" in nm and any(x.startswith("sat.") for x in nm) or None, "modulation", f"{S[n, p]} nodal={n} phase={p}", "", key="mod")
    # Greenwich: no time but the sample's own
    i = R[False, "Greenwich"][2]
    other = lookups(i.term)
    rep.check(not other, "exact times", f"{S[False, 'Greenwich']}", f"phase='Greenwich': the argument uses other times: {', '.join(sorted(other))[:200]}", key="greenwich")


def lookups(t):
    """Samples of t a term uses other than at its own position."""
    out = set()
    seen = set()

    def go(x):
        if isinstance(x, tm.Term):
            for g, p in x.alts:
                go(p)
        elif isinstance(x, tm.Poly):
            for mono in x.m:
                for i, _ in mono:
                    go(tm.Atom.byid[i])
        elif isinstance(x, tm.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind == "sym" and x.key[0] == "t" and any(a[0] == "ix" for a in x.axes):
                out.add(str(x))
            go(x.key)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)

    go(t)
    return out


def internal_time(I, r, e, c):
    """The sample times in the package's own day numbers, as in the model."""
    ax = e[3][0]
    p = tm.sym("t", (), (ax,), real=True)
    if c["t"] == "matlab":
        p = tm.sub(p, tm.pconst(366))
    elif c["t"] == "datetime":
        p = tm.add(scaled(p), tm.pconst(719163))
    elif c["t"] == "date":
        p = tm.add(tm.add(p, scaled(tm.sym("epoch0", (), (), integer=True))), tm.pconst(719163))
    return I.newarr([ax], "f", Info(tm.T(p), frozenset(["t"]), None, ((0.0, 0.0),), 0))


def scaled(p):
    from fractions import Fraction
    return tm.mul(tm.pconst(Fraction(1, 86400000)), p)


def reconstruct(I, c, r):
    I.frames[-1].mod = I.mods["utide._reconstruct"]
    t = c["t"]
    kw = dict(min_SNR=0, min_PE=0, verbose=False)
    if t == "date":
        kw["epoch"] = world.date_symbol("epoch0")
        t = None
    return world.run_reconstruct(I, r.value, r.st.copy(), t=t, kinds=(), **kw)
