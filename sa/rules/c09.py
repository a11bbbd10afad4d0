"""C09: missing samples are excluded jointly and only they are excluded."""
from .common import *

EXPLANATION = ("Validity (taint) analysis: every way a sample can be missing - NaN, infinite, masked, in t, u or v - is a token carried by the values computed from it and removed only by a selection "
               "that excludes it. For each combination of tokens present in t, u and v the rows of every least-squares system must be exactly the samples without any token, model matrix and data taken at the "
               "same samples, and no result may still carry a token. For reconstruct() every output must be NaN under the path condition 'time invalid', not NaN under its negation, and have the time's shape.")
ASSUMPTIONS = ["masked entries hold arbitrary finite or non-finite data"]

ALL = ("nan", "inf", "masked")


def configs(tier, seed):
    out = []
    combos = [("nan",), ("inf",), ("masked",), ALL]
    for two in (False, True):
        names = ["t", "u"] + (["v"] if two else [])
        for m in ("ols", "robust"):
            for ci in ("none", "linear"):
                for n in names:  # only one array has missing samples
                    for k in (combos if ci == "none" or tier != "quick" else [ALL]):
                        out.append(dict(kinds={n: k}, twodim=two, method=m, conf_int=ci, t="python"))
                out.append(dict(kinds={n: ALL for n in names}, twodim=two, method=m, conf_int=ci, t="python"))
                out.append(dict(kinds={n: ("nan",) for n in names}, twodim=two, method=m, conf_int=ci, t="python"))
                out.append(dict(kinds={names[k]: (ALL[k % 3],) for k in range(len(names))}, twodim=two, method=m, conf_int=ci, t="matlab"))
                out.append(dict(kinds={n: ("nan", "masked") for n in names}, twodim=two, method=m, conf_int=ci, t="datetime", white=True))
        out.append(dict(kinds={n: ALL for n in names}, twodim=two, conf_int="MC", t="python"))
        out.append(dict(kinds={n: ALL for n in names}, twodim=two, conf_int="linear", t="python", constit="auto", infer="many"))
        out.append(dict(kinds={n: ALL for n in names}, twodim=two, conf_int="none", t="python", trend=False, infer="one"))
        out.append(dict(kinds={n: ALL for n in names}, twodim=two, conf_int="linear", white=True, t="python", phase="raw", nodal=False))
        out.append(dict(kinds={}, twodim=two, conf_int="linear", t="python"))
    for c in out:
        c.setdefault("constit", "list")
    for k in (("nan",), ("inf",), ("masked",), ("nan", "masked"), ALL, ()):
        for t in ("python", "matlab", "date", "datetime"):
            if t == "datetime" and "inf" in k:
                continue
            for two in (False, True):
                out.append(dict(rec=k, t=t, twodim=two, conf_int="none" if two else "linear", white=True, constit="list", cost=2))
    for c in out:
        c["name"] = cf.label(c)
        c.setdefault("cost", cf.cost(c))
    return out


def ser(name, kinds, deg, dt="f"):
    if dt == "M":
        kinds = tuple(k for k in kinds if k != "inf")
        return world.series(name, world.TAX, kinds, 0, dt="M", unit="ms")
    return world.series(name, world.TAX, kinds, deg)


def solve(I, c):
    st = world.fresh_state(I, "utide._solve")
    tm.PARITY[world.TAX] = 0
    k, t = c["kinds"], c["t"]
    args = [ser("t", k.get("t", ()), 0, "M" if t == "datetime" else "f"), ser("u", k.get("u", ()), 1)]
    if c.get("twodim"):
        args.append(ser("v", k.get("v", ()), 1))
    kw = {x: world.opt_value(I, st, c[x]) for x in ("conf_int", "method", "white", "trend", "phase", "nodal") if x in c}
    kw.update(verbose=num(False), lat=world.scalar("lat", re=world.LATR))
    if t != "datetime":
        kw["epoch"] = Known(t)
    if c["constit"] == "list":
        kw["constit"] = world.strlist(I, st, cf.NAMES, "arg:constit")
    if c.get("infer"):
        kw["infer"] = world.infer_arg(I, st, cf.INFER[c["infer"]], c.get("twodim"))
    r = world.call(I, "utide._solve", "solve", args, kw, st)
    toks = set()
    for a, n in zip(args, "tuv"):
        i = I.info(st, a)
        toks |= set(i.inv) | set(i.mk)
    return r, frozenset(toks)


def rows(ax):
    """(base axis, tokens left out, understood)."""
    toks = frozenset()
    ax = tm.untag(ax)
    while ax[0] == "sel":
        toks |= ax[2]
        ax = tm.untag(ax[1])
    return ax, toks


def names(toks):
    return ", ".join(sorted(f"{n} {k}" for n, k in toks)) or "none"


def run_fit(I, c, rep):
    r, toks = solve(I, c)
    if r.value is None:
        rep.unsure("rows", "solve", f"raises {r.exc}")
        return
    ls = [e for e in r.events if e["kind"] == "lstsq"]
    if not ls:
        rep.unsure("rows", "solve", "no least-squares system found")
    mine = {x for x in toks}
    for e in ls:
        for what, ax in (("model matrix", (e.get("Baxes") or [None])[0]), ("data", (e.get("xaxes") or [None])[0])):
            if ax is None:
                rep.unsure("rows", site(e), f"{what}: axis not known")
                continue
            base, left = rows(ax)
            if base != world.TAX:
                rep.unsure("rows", site(e), f"{what}: rows {tm.short(ax)[:120]}")
            elif left & mine == mine:
                rep.ok("rows", f"{site(e)} {what}")
            else:
                rep.bad("rows", site(e), f"{what}: samples that are invalid through {names(mine - left)} take part", key="rows")
        if tm.untag(e["Baxes"][0]) != tm.untag(e["xaxes"][0]):
            rep.bad("rows", site(e), "model matrix and data are taken at different samples", key="rows")
        bad = {x for x in (e["inv"] or ()) if x[0] in "tuv"} if e.get("inv") else set()
        for i in (e["B"], e["x"]):
            if i is not None:
                bad |= {x for x in i.inv | i.mk if x[0] in ("t", "u", "v")}
        rep.check(not bad, "no invalid value in the fit", site(e), f"values that are invalid ({names(bad)}) reach the least-squares system", key="fit")
    for path, v in walk(r):
        if isinstance(v, Unknown) or path[:1] == ("aux",) and path[1:2] == ("opt",):
            continue
        i = I.info(r.st, v)
        bad = {x for x in i.inv | i.mk if x[0] in ("t", "u", "v")}
        rep.check(not bad, "no invalid value in the result", field_site(r, path), f"{name_of(path)} is computed from samples invalid through {names(bad)}", key="result")


def run_rec(I, c, rep):
    r = cf.run_solve(I, dict(c, kinds="none"))
    if r.value is None:
        rep.unsure("prediction", "solve", f"raises {r.exc}")
        return
    for what, opts in (("default", {}), ("all", dict(min_SNR=0, min_PE=0)), ("named", dict(names=True))):
        if c["conf_int"] == "none" and what == "default":
            continue
        st = r.st.copy()
        I.frames[-1].mod = I.mods["utide._reconstruct"]
        t = c["t"]
        tin = world.series("tr", world.RAX, c["rec"], 0, **(dict(dt="M", unit="ms") if t == "datetime" else {}))
        kw = dict(opts)
        if kw.pop("names", None):
            kw["constit"] = world.strlist(I, st, cf.NAMES[:2], "arg:constit")
        if t == "date":
            kw["epoch"] = world.date_symbol("epoch0")
            t = None
        q = world.run_reconstruct(I, r.value, st, t=t, tin=tin, verbose=False, **kw)
        if q.value is None:
            rep.unsure("prediction", what, f"reconstruct raises {q.exc}")
            continue
        want = frozenset(("tr", k) for k in c["rec"])
        for f in ("u", "v") if c.get("twodim") else ("h",):
            h = field(q, f)
            if not isinstance(h, Arr):
                rep.unsure("prediction", f, "not an array")
                continue
            s = field_site(q, (f,))
            if tuple(map(tm.untag, h.axes)) != (world.RAX,):
                ax = [tm.untag(a) for a in h.axes]
                known = all(a[0] in ("base", "lit", "sel", "one", "perm") for a in ax)
                rep.check(False if known else None, "shape", s, f"{f} has shape {[tm.short(a)[:60] for a in ax]}, not that of t", key="shape")
                continue
            rep.ok("shape", s)
            i = I.info(q.st, h)
            if "uninit" in {str(d) for d in i.deps}:
                rep.bad("prediction", s, f"{f}: elements that were never assigned are returned", key="uninit")
            left = set(i.inv | i.mk)
            nan_ok = True
            for g, p in i.term.alts:
                isnan = str(p) == "const(nan)"
                oks = [(k, v) for k, v in g if k[0] == "ok" and tm.untag(k[1]) == world.RAX]
                off = frozenset().union(*[k[2] for k, v in oks if v == 0]) if oks else frozenset()
                on = frozenset().union(*[k[2] for k, v in oks if v == 1]) if oks else frozenset()
                if isnan:
                    # NaN only where the time is invalid
                    rep.check(True if off and off <= want else (False if not [k for k, v in g if k[0] not in ("ok",)] else None), "NaN only at invalid times", s, f"{f} is NaN at a valid time", key="nan")
                elif off & want:
                    rep.bad("NaN at invalid times", s, f"{f} is not NaN where the time is invalid ({names(off & want)})", key="value")
                elif want - on:
                    if want - on <= left:
                        rep.unsure("NaN at invalid times", s, "value computed from the invalid time")
                    elif left or q.unknown or tm.imprecise(p):
                        rep.unsure("NaN at invalid times", s, "partly")
                    else:
                        rep.bad("NaN at invalid times", s, f"{f} is not NaN where the time is invalid ({names(want - on)})", key="value")
                else:
                    rep.ok("NaN at invalid times", s)
                    if left & on:
                        rep.bad("NaN only at invalid times", s, "value at a valid time is computed from invalid ones", key="mix")


def run(I, c, rep):
    (run_rec if "rec" in c else run_fit)(I, c, rep)
