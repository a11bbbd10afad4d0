"""C08: each constituent's uncertainty comes from its own model columns."""
from . import c21
from .common import *

EXPLANATION = ("For lists of arbitrary constituents the model columns of each constituent are read off the normal form of its reported amplitude (the constant positions at which it uses the least-squares solution). The entries of the inverse normal matrices its "
               "interval depends on must lie in those columns (inferred constituents: in their reference's), every constituent must have an interval that depends on them, and for fitted constituents the interval must equal 1.96 times the package's own propagation of the "
               "weighted least-squares variances of exactly those columns (covariance and pseudo-covariance written as a specification).")
ASSUMPTIONS = ["exact arithmetic", "lists of up to five names and three inferred constituents stand for all"]


def configs(tier, seed):
    out = []
    for two in (False, True):
        for tr in (True, False):
            for me in ("ols", "robust"):
                for inf in (None, "one", "many"):
                    for w in (True, False):
                        if me == "robust" and tr and not w and tier == "quick":
                            continue
                        out.append(dict(twodim=two, trend=tr, method=me, infer=inf, white=w, constit="list", conf_int="linear", order_constit="frequency"))
    return cf.named(out)


def indices(p, names=("inv",), memo={}):
    """Positions at which a value reads the named matrices: (the constant ones,
    whether there are no others)."""
    def atom(a):
        r = memo.get((a, names))
        if r is not None:
            return r
        if a.kind == "op" and a.key[0] in names:
            ks = [x[1].const() if x[0] == "ix" else None for x in a.axes]
            r = frozenset(int(k[0]) for k in ks if k is not None), None not in ks
        elif a.kind == "op" and a.key[0] in ("lstsq", "lstsq:rss"):
            r = NONE, True
        else:
            r = go(a.key)
            if a.kind == "op" and a.key[0] in tm.IMPRECISE:
                # a join or an unmodelled value: what it reads is not certain
                r = NONE, not r[0] and r[1] and a.key[0] not in ("unk", "call")
        memo[a, names] = r
        return r

    def go(x):
        if isinstance(x, tm.Poly):
            parts = [atom(tm.Atom.byid[i]) for i in {i for mono in x.m for i, _ in mono}]
        elif isinstance(x, tm.Atom):
            return atom(x)
        elif isinstance(x, tm.Term):
            parts = [go(q) for _, q in x.alts]
        elif isinstance(x, (tuple, frozenset, list)):
            parts = [go(y) for y in x]
        else:
            return NONE, True
        return frozenset().union(*(i for i, _ in parts)), all(e for _, e in parts)

    return go(p)


def run(I, c, rep):
    two = c["twodim"]
    code, names = c21.own(I)
    if c["white"] and code is not None:
        r = c21.solve(I, c, rep, "own covariance", "the package's propagation of the weighted least-squares variances of the constituent's columns", code, names)
    else:
        from .c17 import with_bands

        r = with_bands(I, c, [])
    if r is None or r.value is None:
        rep.unsure("own columns", "solve", "no result")
        return
    fs = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if two else ("A_ci", "g_ci")
    for k, p, cols in c21.pairs(I, r, two):
        if len(cols) != 2:
            rep.unsure("own columns", "solve", f"columns of a constituent not identified: {sorted(cols)}")
            continue
        for f in fs:
            where = field_site(r, (f,))
            alts = [(g, q) for g, q in c21.values(I, r, f) if k <= {(x, v) for x, v in g}]
            if not alts:
                rep.unsure("own columns", where, "no value found")
            got = [indices(q) for _, q in alts]
            if alts and not any(ix for ix, _ in got) and all(e for _, e in got):
                rep.bad("an interval each", where, f"{f} of the constituent fitted by columns {sorted(cols)} does not depend on their covariance", f)
            for ix, exact in got:
                if not ix <= cols:
                    rep.bad("own columns", where, f"{f} of the constituent fitted by columns {sorted(cols)} uses the covariance of columns {sorted(ix - cols)}", f)
                elif not exact:
                    rep.unsure("own columns", where, "positions in the covariance not constant")
                else:
                    rep.ok("own columns", where, f"{f}: columns {sorted(ix)}")
