"""Orders of per-constituent arrays, evaluated in interpretations of the
terms: a 'perm' axis is the axis it reorders plus the term it was sorted by."""

from .. import terms as tm


def base(ax):
    while ax[0] == "perm":
        ax = ax[1]
    return ax


def depth(ax):
    n = 0
    while ax[0] == "perm":
        ax = ax[1]
        n += 1
    return n


def pick_alt(m, alts, seg, idx):
    """Polynomial of the alternative whose guards hold."""
    for g, p in alts:
        ok = True
        for k, v in g:
            if k[0] in ("seg", "segp") and k[1] in seg:
                ok = v == seg[k[1]]
            elif k[0] == "c" and isinstance(k[1], tm.Poly):
                x = m.ev(k[1], idx)
                x = x.real if isinstance(x, complex) else x
                ok = bool(x) == bool(v)
            if not ok:
                break
        if ok:
            return p
    return None


def layout(m, ax):
    """[(segment number or None, segment axis, offset, global position)]"""
    segs = tm.segments(ax)
    if segs is None:
        return [(None, ax, n, n) for n in range(m.length(ax))]
    out, pos = [], 0
    for k, s in enumerate(segs):
        for o in range(m.length(s)):
            out.append((k, s, o, pos))
            pos += 1
    return out


def values(m, term, ax, over):
    """Values of a term along axis `over` laid out like ax (its base axis)."""
    out = []
    for k, s, o, n in layout(m, ax):
        idx = {over: n}
        seg = {}
        if k is not None:
            seg = {over: k, ax: k}
            if s != tm.ONEAX:
                idx[s] = o
                if over[0] == "pr":
                    idx[tm.retag(s, over[2])] = o
        p = pick_alt(m, term.alts, seg, idx)
        if p is None:
            return None
        v = m.ev(p, idx)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-6 * (1 + abs(v.real)):
                return None
            v = v.real
        out.append(v)
    return out


def simulate(m, ax):
    """Original positions in the order in which axis ax lists them; None when
    the sort key is not known."""
    if ax[0] != "perm":
        return list(range(m.length(ax)))
    inner = simulate(m, ax[1])
    if inner is None:
        return None
    k = ax[2]
    if k == ("rev",):
        return inner[::-1]
    if k[0] == "argsort":
        over = ("pr", ax[1][1], "bd") if ax[1][0] == "pr" else tm.retag(ax[1], "bd")
        vals = values(m, k[1], base(ax[1]), over)
        if vals is None or len(vals) != len(inner):
            return None
        return sorted(inner, key=lambda n: vals[n])
    return None
