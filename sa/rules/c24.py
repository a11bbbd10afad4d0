"""C24: prediction is pointwise in time."""
from .common import *
from .c13 import names_in

EXPLANATION = ("Dependence analysis of the normal form of every value reconstruct() predicts: it may mention the requested times only at the value's own position - no reduction, neighbour, first or last element, ordering or number of "
               "the requested times, neither in the value nor in the condition that selects it (other than the validity of that time). The value at valid times is also compared with that for times without missing entries.")
ASSUMPTIONS = ["exact arithmetic"]


def configs(tier, seed):
    out = []
    for two in (False, True):
        for nodal in (True, False, "linear_time"):
            for phase in ("Greenwich", "linear_time", "raw"):
                out.append(dict(twodim=two, nodal=nodal, phase=phase, trend=phase != "raw", conf_int="none", constit="list", t="python", tr="python"))
    for tr in ("matlab", "datetime", "date"):
        out.append(dict(twodim=False, conf_int="linear", white=True, constit="list", t="python", tr=tr))
    for k, i, w in (("auto", None, False), ("list", "many", True), ("list", "one", False), ("auto", "many", True)):
        out.append(dict(twodim=w, infer=i, constit=k, conf_int="linear", t="python", tr="python"))
    return cf.named(out)


def uses(x, name, base, env=(), seen=None, out=None):
    """Uses of a time series other than at the value's own position.

    env: the axes the placeholders of an enclosing loop value stand for."""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(x, tm.Term):
        for g, p in x.alts:
            uses(p, name, base, env, seen, out)
    elif isinstance(x, tm.Poly):
        for mono in x.m:
            for i, _ in mono:
                uses(tm.Atom.byid[i], name, base, env, seen, out)
    elif isinstance(x, tm.Atom):
        if (x, env) in seen:
            return out
        seen.add((x, env))
        axes = tuple(resolved(a, env) for a in x.axes if a != tm.ONEAX)
        if x.kind == "sym" and x.key[0] == name:
            for a in axes:
                if not own_axis(a, base):
                    out.add(tm.short(x)[:120])
        if x.kind == "sym" and x.key[0] == "len" and base in flat(x.key):
            out.add(tm.short(x)[:120])
        uses(x.key, name, base, axes if has_axis(x.key) else env, seen, out)
        uses(x.axes, name, base, env, seen, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            uses(y, name, base, env, seen, out)
    return out


def resolved(a, env):
    """An axis with the placeholders of an enclosing loop value replaced."""
    if isinstance(a, tuple) and len(a) == 2 and a[0] == "base" and str(a[1]).startswith("axis "):
        n = int(a[1][5:])
        return env[n] if n < len(env) else a
    if isinstance(a, tuple):
        return tuple(resolved(y, env) if isinstance(y, tuple) else y for y in a)
    return a


def has_axis(k):
    return isinstance(k, tuple) and k[:1] in (("loop",), ("mu",), ("weak",))


def flat(x):
    out = set()
    if isinstance(x, tuple):
        out.add(x)
        for y in x:
            out |= flat(y)
    return out


def own_axis(a, base):
    a0 = a
    while isinstance(a0, tuple) and a0[0] in ("sel", "flt"):
        a0 = a0[1]
    return a0 == base


def predict(I, c, r, st, kinds, opts):
    I.frames[-1].mod = I.mods["utide._reconstruct"]
    t = c["tr"]
    kw = dict(opts, verbose=False)
    if t == "date":
        kw["epoch"] = world.date_symbol("epoch0")
        t = None
    if t == "datetime":
        kinds = tuple(k for k in kinds if k != "inf")
    return world.run_reconstruct(I, r.value, st, t=t, kinds=kinds, **kw)


def run(I, c, rep):
    r = cf.run_solve(I, dict(c, kinds="none"))
    if r.value is None:
        rep.unsure("pointwise", "solve", f"raises {r.exc}")
        return
    two = c["twodim"]
    for what, opts in (("all", dict(min_SNR=0, min_PE=0)),) + ((("default", {}),) if c["conf_int"] != "none" else ()):
        q = predict(I, c, r, r.st.copy(), world.KINDS, opts)
        q0 = predict(I, c, r, r.st.copy(), (), opts)
        for f in ("u", "v") if two else ("h",):
            h = field(q, f) if q.value is not None else None
            if not isinstance(h, Arr) or len(h.axes) != 1:
                rep.unsure("pointwise", f, f"{q.exc}")
                continue
            t = term(q, h)
            s = field_site(q, (f,))
            ax = tm.untag(h.axes[0])
            bad, gbad = set(), set()
            for g, p in t.alts:
                bad |= uses(p, "tr", world.RAX)
                for k, v in g:
                    if k[0] != "ok":
                        gbad |= uses(k, "tr", world.RAX) | ({"a condition on the requested times"} if "tr" in names_in(k) else set())
            if tm.imprecise(t) & {"unk"} and not bad:
                rep.unsure("pointwise", f"{s} ({what})", "not fully modelled")
            else:
                rep.check(not bad, "pointwise", f"{s} ({what})", f"{f} uses the requested times beyond its own: {'; '.join(sorted(bad))[:300]}", key=f)
            rep.check(not gbad, "pointwise condition", f"{s} ({what})", f"{f} is selected by the requested times: {'; '.join(sorted(gbad))[:300]}", key=f)
            # missing entries elsewhere and the number of times do not matter
            ok = frozenset((k, 1) for g, _ in t.alts for k, v in g if k[0] == "ok")
            for other, w in ((q0, "times without missing entries"),):
                x = field(other, f) if other.value is not None else None
                if not isinstance(x, Arr) or len(x.axes) != 1:
                    rep.unsure("same value", f"{s} ({what})", f"{other.exc}")
                    continue
                xt = term(other, x)
                same(rep, "same value", f"{s} ({what}, {w})", xt, t, f"{f} differs from that for {w}", key=f, under=ok)

