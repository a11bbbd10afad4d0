"""numpy / scipy functions: reductions, sorting, linear algebra, spectra."""

import math
from fractions import Fraction

from . import terms as tm
from .vals import *
from .vals import NONE
from .npcore import djoin
from .npfuncs import F, fun, BOOL01, RZ, isreal

NONNEG = ((0.0, INF),)


def hull(iv):
    if iv is None or not iv:
        return iv
    return ((iv[0][0], iv[-1][1]),)


class Reduce:
    # ------------------------------------------------------------ helpers
    def aggdeps(self, axs):
        out = set()
        for ax in axs:
            for a in self.base_axes(ax):
                out.add("agg:" + a)
        return frozenset(out)

    def base_axes(self, ax):
        r = self.root_axis(ax)
        if r[0] == "base":
            return {str(r[1])}
        if r[0] == "cat":
            s = set()
            for x in r[1]:
                s |= self.base_axes(x)
            return s
        if r[0] == "anon":
            s = set()
            for a in (r[1].atoms() if isinstance(r[1], tm.Poly) else ()):
                if a.key and a.key[0] == "len":
                    s |= self.base_axes(a.key[1])
            return s
        return set()

    def bd(self, t, ax):
        """Term with axis ax bound inside a function of the whole axis."""
        if ax == tm.ONEAX:
            return t
        return tm.rename_axis(t, ax, tm.retag(ax, "bd") if ax[0] != "pr" else ("pr", ax[1], "bd"))

    def opterm(self, name, terms, out=(), bound=(), real=True, nonneg=False, integer=False, extra=()):
        """Opaque function of whole Terms; out axes are the result axes."""
        free = set()
        for t in terms:
            free |= t.axes()
        free = sorted((a for a in free if a not in out and a not in bound and not tm.bound_tag(a) and a != tm.ONEAX and a[0] != "ix"), key=tm.ordk)
        # bound names go by the order of the axes: rows and columns of a
        # square matrix stay apart, whatever the axes are called
        names, count = {}, {}
        for a in list(out) + list(bound) + free:
            if a != tm.ONEAX and a not in names:
                b = tm.retag(a, None)
                n = count[b] = count.get(b, 0) + 1
                names[a] = tm.retag(a, "bd" if n == 1 else f"bd{n}")
        key = []
        for t in terms:
            old = [a for a in names if a not in out or a in t.axes() or tm.has_seg(t, a)]
            key.append(tm.rename_axes(t, old, [names[a] for a in old]) if old else t)
        # out axes of size one carry no position
        oax = tuple(a for a in out if a != tm.ONEAX)
        return tm.T(tm.opaque(name, tuple(extra) + tuple(key), oax + tuple(free), real=real, nonneg=nonneg, integer=integer))

    def redaxes(self, a, axis):
        nd = len(a.axes)
        if axis is None or (isinstance(axis, Known) and axis.v is None):
            return list(range(nd))
        if isinstance(axis, Ref):
            return None
        k = self.known(axis)
        if k is None:
            return None
        if not -nd <= k < nd:
            self.I.raise_("AxisError", f"axis {k} is out of bounds for array of dimension {nd}")
        return [int(k) % nd]

    def reduce(self, st, a, axis, name, tred, re, deg, dt=None, im=None, kw=None, dropnan=False, cplx=None):
        """Reduction over the given axes; tred(term, axis) -> Term."""
        a = self.A(st, self.I.pick(a, st))
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.reduce(st, x, axis, name, tred, re, deg, dt, im, kw, dropnan, cplx), [a], st)
        if isinstance(a, Unknown) or not self.isnum(a):
            return self.unk(name, st, a)
        if a.dt == "U":
            self.I.raise_("TypeError", f"cannot reduce strings with {name}")
        kw = kw or {}
        i = self.I.info(st, a)
        if isinstance(a, Num):
            a = self.I.newarr([tm.ONEAX], a.dt, i, unit=a.unit)
        ks = self.redaxes(a, axis)
        if ks is None:
            return self.unk(name, st, a)
        axes = list(a.axes)
        t = i.term
        deps = i.deps
        cut = []
        for k in sorted(ks, reverse=True):
            ax = axes.pop(k)
            cut.append(ax)
            if a.ma and i.mk:
                sel = ("sel", ax, i.mk) if ax[0] != "sel" else ("sel", ax[1], ax[2] | i.mk)
                t = tm.rename_axis(t, ax, sel)
                ax = sel
            t = tm.flat(t, ax)
            if t is not None:
                t = tred(t, ax) if ax != tm.ONEAX else self.red1(t, name)
            if t is None:
                t = tm.T(tm.opaque("unk", (name,)))
            if self.known(kw.get("keepdims"), False):
                axes.insert(k, tm.ONEAX)
        deps = deps | self.aggdeps(cut)
        empty = any(ax == ("lit", 0) for ax in cut)
        inv = i.inv
        if dropnan:
            inv = frozenset(x for x in inv if x[1] != "nan")
        d = dt or a.dt
        if cplx:
            d = cplx(a.dt)
        ri = re(i, cut)
        n = Info(t, deps, ri, (im(i, cut) if im else (RZ if d != "c" else None)), deg(i.deg) if not empty else i.deg, inv)
        if empty and name in ("max", "min"):
            self.I.raise_("ValueError", "zero-size array to reduction operation")
        r = self.mkres(st, axes, d, n, a)
        return self.outarg(st, r, kw)

    def mkres(self, st, axes, d, n, a=None):
        if axes:
            return self.I.newarr(axes, d, n, unit=getattr(a, "unit", None), ma=bool(a is not None and getattr(a, "ma", False)))
        c = n.term.rconst()
        val = NOVAL
        if c is not None and not n.deps:
            if d == "i" and c.denominator == 1:
                val = int(c)
            elif d == "f":
                val = float(c)
            elif d == "b":
                val = bool(c)
        return Num(d, n, val, unit=getattr(a, "unit", None))

    def red1(self, t, name):
        if name in ("var", "std", "ptp"):
            return tm.tmap(lambda p: tm.PZERO, t)
        return t

    def fnred(self, name, sym=True, nonneg=False):
        """Order-independent reduction as a function atom."""

        def g(t, ax):
            if ax[0] == "perm" and sym:
                return g(tm.tsubst(t, {ax: ax[1]}), ax[1])
            if tm.has_seg(t, ax):
                parts = tm.seg_alts(t, ax)
                if any(x is None for _, x in parts):
                    return None
                ps = []
                for s, x in parts:
                    ps.append(self.bd(x, s))

                def f(*qs):
                    if all(q == qs[0] for q in qs) and not any(tm.bound_tag(x) for x in qs[0].axes()) and name in ("max", "min", "median"):
                        return qs[0]
                    pairs = list(zip([tm.short(s) for s, _ in parts], qs))
                    if sym:
                        pairs.sort(key=lambda z: (z[0], tm._ord(z[1])))
                    key = []
                    for s, q in pairs:
                        key += [s, q]
                    return tm.fn("red:" + name, *key, real=True, nonneg=nonneg or self.allnn(qs))

                return tm.tmap(f, *ps)

            def h(p):
                if ax not in p.axes() and not any(x in p.axes() for x in tm.inner_axes(ax)[1:]):
                    if name in ("max", "min", "median", "mean"):
                        return p
                    if name in ("var", "std", "ptp"):
                        return tm.PZERO
                q = tm.subst_axis(p, {x: tm.retag(x, "bd") for x in [ax] if x != tm.ONEAX})
                return tm.fn("red:" + name, tm.short(tm.untag(ax)), q, real=True, nonneg=nonneg or self.allnn([q]))

            return tm.tmap(h, t)

        return g

    def allnn(self, ps):
        for p in ps:
            for m, c in p.m.items():
                if c[1] != 0 or c[0] < 0:
                    return False
                for i, e in m:
                    a = tm.Atom.byid[i]
                    if not (a.nonneg or (a.real and isinstance(e, int) and e % 2 == 0)):
                        return False
        return True

    # --------------------------------------------------------- reductions
    @fun("sum", "nansum")
    def f_sum(self, st, a, axis=None, dtype=None, out=None, _nan=False, **kw):
        def re(i, cut):
            if i.re is None:
                return None
            if not i.re:
                return i.re
            lo, hi = iv_bounds(i.re)
            n = tm.PONE
            for ax in cut:
                n = tm.mul(n, tm.axis_len(ax))
            c = n.rconst()
            if c is not None:
                return ((_x(lo, c), _x(hi, c)),)
            return ((0.0 if lo >= 0 else -INF, 0.0 if hi <= 0 else INF),)

        if out is not None:
            kw["out"] = out
        kw["axis_"] = axis
        return self.reduce(st, a, axis, "sum", tm.tsum, re, lambda d: d, kw=kw,
                           im=lambda i, c: RZ if i.im == RZ else None, cplx=lambda d: "i" if d == "b" else d)

    @fun("mean", "average", "nanmean")
    def f_mean(self, st, a, axis=None, **kw):
        if kw.get("weights") is not None:
            return self.unk("weighted average", st, a, kw["weights"])

        def tred(t, ax):
            s = tm.tsum(t, ax)
            if s is None:
                return None
            n = tm.axis_len(ax)
            return tm.tmap(lambda p: tm.div(p, n), s)

        return self.reduce(st, a, axis, "mean", tred, lambda i, c: hull(i.re), lambda d: d, kw=kw,
                           im=lambda i, c: hull(i.im), cplx=lambda d: djoin(d, "f") if d in "bifc" else d)

    @fun("max", "amax", "nanmax")
    def f_max(self, st, a, axis=None, *r, **kw):
        return self.reduce(st, a, axis, "max", self.fnred("max"), lambda i, c: hull(i.re), lambda d: d, kw=kw)

    @fun("min", "amin", "nanmin")
    def f_min(self, st, a, axis=None, *r, **kw):
        return self.reduce(st, a, axis, "min", self.fnred("min"), lambda i, c: hull(i.re), lambda d: d, kw=kw)

    @fun("median", "nanmedian")
    def f_median(self, st, a, axis=None, *r, **kw):
        return self.reduce(st, a, axis, "median", self.fnred("median"), lambda i, c: hull(i.re), lambda d: d, kw=kw, cplx=lambda d: djoin(d, "f"))

    @fun("ptp")
    def f_ptp(self, st, a, axis=None, *r, **kw):
        return self.reduce(st, a, axis, "ptp", self.fnred("ptp", nonneg=True), lambda i, c: NONNEG, lambda d: d, kw=kw)

    @fun("var", "nanvar")
    def f_var(self, st, a, axis=None, *r, **kw):
        nm = "var" + self.ddof(kw)
        return self.reduce(st, a, axis, "var", self.fnred(nm, nonneg=True), lambda i, c: NONNEG, lambda d: self.pw(d, 2), kw=kw, cplx=lambda d: "f")

    @fun("std", "nanstd")
    def f_std(self, st, a, axis=None, *r, **kw):
        nm = "std" + self.ddof(kw)
        return self.reduce(st, a, axis, "std", self.fnred(nm, nonneg=True), lambda i, c: NONNEG, lambda d: d, kw=kw, cplx=lambda d: "f")

    def ddof(self, kw):
        k = self.known(kw.get("ddof"), 0)
        return "" if k == 0 else f"(ddof={k})"

    def pw(self, d, n):
        return d * n if isinstance(d, (int, float, Fraction)) else d

    @fun("prod", "nanprod", "product")
    def f_prod(self, st, a, axis=None, *r, **kw):
        def deg(d):
            return d if isinstance(d, Bad) or d is ANY or d == 0 else None

        def tred(t, ax):
            if ax[0] == "lit" and ax[1] <= 6:
                parts = tm.seg_alts(t, ax)
                if all(x is not None for _, x in parts):
                    o = tm.T(tm.PONE)
                    for _, x in parts:
                        o = tm.tmap(tm.mul, o, x)
                    return o
            return self.fnred("prod")(t, ax)

        return self.reduce(st, a, axis, "prod", tred, lambda i, c: NONNEG if i.re is not None and i.re and i.re[0][0] >= 0 else None, deg, kw=kw,
                           im=lambda i, c: RZ if i.im == RZ else None, cplx=lambda d: "i" if d == "b" else d)

    def boolred(self, st, a, axis, name, kw):
        a = self.A(st, self.I.pick(a, st))
        if isinstance(a, (Unknown, Choice)):
            return self.unk(name, st, a)
        b = self.tobool(st, a)
        if isinstance(b, Unknown):
            return b
        i = self.I.info(st, b)
        c = i.term.rconst()

        def tred(t, ax):
            p = t.single()
            if p is not None and p.rconst() is not None:
                return t

            def flip(x):
                return tm.tmap(lambda q: tm.sub(tm.PONE, q), x)

            if name == "any":
                return self.fnredb("max", t, ax)
            return flip(self.fnredb("max", flip(t), ax))

        r = self.reduce(st, b, axis, name, tred, lambda i, c: hull(i.re) or BOOL01, lambda d: d, dt="b", kw=kw)
        if isinstance(r, Num) and i.ok is not None:
            if name == "any" and i.ok[0] == "bad":
                r = Num("b", r.info, NOVAL, ("anybad", i.ok[1])) if i.ok[1] else num(False, r.info.deps)
            elif name == "all" and i.ok[0] == "good":
                if not i.ok[1]:
                    return num(True, r.info.deps)
                x = Num("b", r.info.rep(term=tm.tmap(lambda q: tm.sub(tm.PONE, q), r.info.term)), NOVAL, ("anybad", i.ok[1]))
                return self.lognot_any(st, x)
        return r

    def lognot_any(self, st, x):
        return Num("b", x.info.rep(term=tm.tmap(lambda q: tm.sub(tm.PONE, q), x.info.term)), NOVAL, ("noneb", x.lenof[1]))

    def fnredb(self, name, t, ax):
        r = self.fnred(name, nonneg=True)(t, ax)
        return r

    @fun("any", "sometrue")
    def f_any(self, st, a, axis=None, *r, **kw):
        return self.boolred(st, a, axis, "any", kw)

    @fun("all", "alltrue")
    def f_all(self, st, a, axis=None, *r, **kw):
        return self.boolred(st, a, axis, "all", kw)

    @fun("count_nonzero")
    def f_count_nonzero(self, st, a, axis=None, **kw):
        return self.f_sum(st, self.tobool(st, a), axis, **kw)

    @fun("ediff1d")
    def f_ediff1d(self, st, a, *r, **kw):
        return self.unk("ediff1d", st, a) if r or kw else self.f_diff(st, a)

    @fun("cumprod", "nancumprod")
    def f_cumprod(self, st, a, *r, **kw):
        return self.f_cum(st, a, *r, name="cumprod", **kw)

    @fun("gradient")
    def f_gradient(self, st, a, *r, **kw):
        return self.f_cum(st, a, *r, name="gradient", **kw)

    @fun("cumsum", "nancumsum")
    def f_cum(self, st, a, *r, name="cum", **kw):
        a = self.A(st, a)
        if isinstance(a, Arr) and len(a.axes) == 1:
            vs = self.known_numbers(st, a) if name != "gradient" and a.dt in "if" else None
            if vs is not None:
                out, x = [], None
                for y in vs:
                    x = y if x is None else self.binop(st, "Add" if name == "cum" else "Mult", x, y)
                    out.append(("v", x))
                return self.to_array(st, self.mklist(st, out))
            i = self.I.info(st, a)
            t = self.opterm(name, [i.term], a.axes, a.axes)
            return self.I.newarr(a.axes, a.dt, Info(t, i.deps | self.aggdeps(a.axes), None, i.im if i.im == RZ else None, i.deg, i.inv), unit=a.unit)
        return self.unk("cumulative", st, a)

    @fun("diff")
    def f_diff(self, st, a, n=None, axis=None, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or self.known(n, 1) != 1:
            return self.unk("diff", st, a)
        k = self.known(axis, -1)
        nd = len(a.axes)
        pre = [Slice(None, None, None)] * (k % nd)
        x = self.arr_getitem(st, a, tuple(pre + [Slice(num(1), None, None)]))
        y = self.arr_getitem(st, a, tuple(pre + [Slice(None, num(-1), None)]))
        if isinstance(x, Unknown) or isinstance(y, Unknown):
            return self.unk("diff", st, a)
        if isinstance(x, Arr) and isinstance(y, Arr) and x.axes != y.axes:
            i = self.I.info(st, y)
            t = i.term
            t = tm.rename_axes(t, y.axes, x.axes)
            y = self.I.newarr(x.axes, y.dt, i.rep(term=t), unit=y.unit, ma=y.ma)
        return self.binop(st, "Sub", x, y)

    @fun("unique")
    def f_unique(self, st, a, *r, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or len(a.axes) != 1 or r or kw:
            return self.unk("unique", st, a)
        i = self.I.info(st, a)
        pos = self.known_positions(st, a) if a.dt == "i" else None
        if pos is not None:
            return self.to_array(st, self.mklist(st, [("v", num(k)) for k in sorted(set(pos))]))
        key = self.bd(i.term, a.axes[0])
        ax = ("anon", tm.opaque("nuniq", (key,), nonneg=True, integer=True), ("uniq", key))
        t = tm.T(tm.opaque("uniq", (), (ax,), integer=a.dt == "i"))
        deps = i.deps
        return self.I.newarr([ax], a.dt, i.rep(term=t, deps=deps | self.aggdeps(a.axes), ok=None), unit=a.unit)

    # ------------------------------------------------------------ sorting
    def sortdeg(self, d):
        return d if isinstance(d, Bad) or d is None else 0

    @fun("argsort", "lexsort")
    def f_argsort(self, st, a, *r, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or len(a.axes) != 1:
            return self.unk("argsort", st, a)
        ax = a.axes[0]
        i = self.I.info(st, a)
        if ax == tm.ONEAX:
            return self.I.newarr([ax], "i", Info(tm.T(tm.PZERO), i.deps, RZ))
        new = ("perm", ax, ("argsort", self.bd(i.term, ax)))
        t = tm.T(tm.possym(ax, new))
        # the order depends on all elements
        return self.I.newarr([new], "i", Info(t, i.deps | {"ord:" + x for x in self.base_axes(ax)} | self.invdep(i), NONNEG, RZ, self.sortdeg(i.deg)))

    def invdep(self, i):
        return NONE

    @fun("sort")
    def f_sort(self, st, a, *r, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or len(a.axes) != 1:
            return self.unk("sort", st, a)
        return self.arr_getitem(st, a, (self.f_argsort(st, a),))

    @fun("argmax", "argmin", "nanargmax", "nanargmin")
    def f_argmax(self, st, a, axis=None, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or len(a.axes) != 1:
            return self.unk("argmax", st, a)
        i = self.I.info(st, a)
        t = self.opterm("argext", [i.term], (), a.axes, nonneg=True, integer=True)
        return Num("i", Info(t, i.deps | self.aggdeps(a.axes), NONNEG, RZ, self.sortdeg(i.deg), i.inv))

    @fun("nonzero", "flatnonzero", "where1", "argwhere")
    def f_nonzero(self, st, a, _flat=False, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or len(a.axes) != 1:
            return self.unk("nonzero", st, a)
        m = self.tobool(st, a)
        i = self.I.info(st, m)
        ax = a.axes[0]
        w = self.known_mask(st, m)
        if w is not None:
            return w if _flat else self.mktuple(st, [w])
        new, g, toks = self.mask_axis(st, ax, i)
        if new == ax:
            t = tm.T(tm.ixsym(ax))
        else:
            t = tm.T(tm.possym(ax, new))
        r = self.I.newarr([new], "i", Info(t, i.deps | {"ord:" + x for x in self.base_axes(ax)}, NONNEG, RZ, self.sortdeg(i.deg)))
        return r if _flat else self.mktuple(st, [r])

    @fun("flatnonzero")
    def f_flatnonzero(self, st, a, **kw):
        return self.f_nonzero(st, a, _flat=True)

    @fun("searchsorted", "digitize")
    def f_searchsorted(self, st, a, v, *r, **kw):
        a, v = self.A(st, a), self.A(st, v)
        if not isinstance(a, Arr) or len(a.axes) != 1 or not isinstance(v, (Arr, Num)):
            return self.unk("searchsorted", st, a, v)
        i, j = self.I.info(st, a), self.I.info(st, v)
        side = self.known(kw.get("side") or (r[0] if r else None), "left")
        return self.tabfn(st, "searchsorted:" + str(side), [a], v, "i", lambda x, ks: self.sortdeg(deg_add(x, ks[0], self.why("searchsorted"))), NONNEG, integer=True)

    def tabfn(self, st, name, tables, v, dt, deg, re, real=True, integer=False, ax=None):
        """f(tables..., v) elementwise in v, with whole-table arguments."""
        vi = self.I.info(st, v)
        ti = [self.I.info(st, x) for x in tables]
        bts = [self.bdall(i.term, x) for i, x in zip(ti, tables)]

        def f(p):
            free = tuple(sorted({y for t in bts for y in t.axes() if not tm.bound_tag(y)}, key=tm.ordk))
            return tm.patom(tm.atom("fn", (name,) + tuple(self.tkey(t) for t in bts) + (p,), free, real=real, nonneg=re is NONNEG, integer=integer))

        t = tm.tmap(f, vi.term)
        deps = vi.deps
        inv = vi.inv
        for i, x in zip(ti, tables):
            deps |= i.deps | self.aggdeps(x.axes)
            inv |= i.inv
        n = Info(t, deps, re, RZ if real else None, deg(vi.deg, [i.deg for i in ti]), inv)
        if isinstance(v, Num):
            return Num(dt, n)
        return self.I.newarr(v.axes, dt, n)

    def tkey(self, t):
        p = t.single()
        return p if p is not None and not t.alts[0][0] else t

    def bdall(self, t, x):
        for a in x.axes:
            t = self.bd(t, a)
        return t

    @fun("interp")
    def f_interp(self, st, x, xp, fp, *r, **kw):
        x, xp, fp = self.A(st, x), self.A(st, xp), self.A(st, fp)
        if any(isinstance(q, (Unknown, Choice)) for q in (x, xp, fp)) or not isinstance(xp, Arr) or not isinstance(fp, Arr) or r:
            return self.unk("interp", st, x, xp, fp)
        w = self.why("interp")
        u = self.unify(st, xp.axes[0], fp.axes[0])
        if u is False:
            self.I.raise_("ValueError", "fp and xp are not of the same length")

        def deg(d, ks):
            c = deg_add(d, ks[0], w)
            return c if isinstance(c, Bad) else ks[1]

        fi = self.I.info(st, fp)
        o = self.tabfn(st, "interp", [xp, fp], x, "c" if fp.dt == "c" else "f", deg, hull(fi.re), real=fp.dt != "c")
        return o

    # ----------------------------------------------------- linear algebra
    def contract(self, st, a, b, ka, kb, name="dot"):
        """Sum of a*b over axis ka of a and kb of b; free axes a then b."""
        ia, ib = self.I.info(st, a), self.I.info(st, b)
        axa, axb = list(a.axes), list(b.axes)
        p, q = axa[ka], axb[kb]
        u = self.unify(st, p, q)
        if u is False or (p == tm.ONEAX) != (q == tm.ONEAX):
            if u is False or (p == tm.ONEAX and tm.axis_len(q).rconst() is not None) or (q == tm.ONEAX and tm.axis_len(p).rconst() is not None):
                self.I.raise_("ValueError", f"shapes not aligned: {tm.short(p)} and {tm.short(q)}")
            u = None
        if u is None:
            self.I.mayraise(st, "ValueError", "dot: shapes may not be aligned")
            return self.unk(name, st, a, b)
        tb = ib.term
        used = [x for x in axa if x != tm.ONEAX]
        # private names for b's free axes that clash
        fa = axa[:ka] + axa[ka + 1:]
        fb = axb[:kb] + axb[kb + 1:]
        summed = p
        if q != p:
            tb = tm.rename_axis(tb, q, ("pr", tm.untag(q), "k") if q[0] != "cat" else tm.retag(q, "k"))
            q1 = ("pr", tm.untag(q), "k") if q[0] != "cat" else tm.retag(q, "k")
        else:
            q1 = q
        nf = []
        for k, x in enumerate(fb):
            nf.append(self.fresh_tag(x, used + nf + fb[k + 1:]) if x != tm.ONEAX and (x in used or x in nf) else x)
        tb = tm.rename_axes(tb, fb, nf)
        if q1 != p:
            tb = tm.rename_axis(tb, q1, p)
        t = tm.tmap(tm.mul, ia.term, tb)
        t = tm.tsum(t, summed) if summed != tm.ONEAX else t
        if t is None:
            t = tm.T(tm.opaque("unk", ("dot",)))
        axes = fa + nf
        for z in list(axes):
            if z != tm.ONEAX and axes.count(z) > 1:
                return self.unk(name, st, a, b)
        dt = djoin(a.dt, b.dt)
        re = None
        if ia.im == RZ and ib.im == RZ:
            m = iv_mul(ia.re, ib.re)
            if m is not None and m:
                lo, hi = iv_bounds(m)
                re = ((0.0 if lo >= 0 else -INF, 0.0 if hi <= 0 else INF),)
                if summed == tm.ONEAX:
                    re = m
        im = RZ if ia.im == RZ and ib.im == RZ else None
        n = Info(t, ia.deps | ib.deps | self.aggdeps([p]), re, im, deg_mul(ia.deg, ib.deg), ia.inv | ib.inv | ia.mk | ib.mk)
        return self.mkres(st, axes, dt, n)

    @fun("dot", "matmul")
    def f_dot(self, st, a, b, *r, **kw):
        a, b = self.A(st, self.I.pick(a, st)), self.A(st, self.I.pick(b, st))
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.I.over_choice(lambda x, y: self.f_dot(st, x, y), [a, b], st)
        if isinstance(a, Unknown) or isinstance(b, Unknown) or not self.isnum(a) or not self.isnum(b):
            return self.unk("dot", st, a, b)
        if isinstance(a, Num) or isinstance(b, Num):
            return self.binop(st, "Mult", a, b)
        return self.outarg(st, self.contract(st, a, b, len(a.axes) - 1, max(0, len(b.axes) - 2)), kw)

    @fun("vdot")
    def f_vdot(self, st, a, b, **kw):
        return self.f_dot(st, self.f_conj(st, a), b)

    @fun("inner")
    def f_inner(self, st, a, b, **kw):
        a, b = self.A(st, a), self.A(st, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return self.contract(st, a, b, len(a.axes) - 1, len(b.axes) - 1)
        return self.unk("inner", st, a, b)

    @fun("einsum")
    def f_einsum(self, st, spec, *ops, **kw):
        s = self.known(spec)
        ops = [self.A(st, self.I.pick(o, st)) for o in ops]
        if not isinstance(s, str) or any(not isinstance(o, Arr) for o in ops):
            return self.unk("einsum", st, *ops)
        s = s.replace(" ", "")
        if "." in s:
            return self.unk("einsum", st, *ops)
        ins, _, out = s.partition("->")
        labs = ins.split(",")
        if "->" not in s:
            al = "".join(labs)
            out = "".join(sorted(c for c in set(al) if al.count(c) == 1))
        if len(labs) != len(ops) or any(len(l) != len(o.axes) for l, o in zip(labs, ops)):
            self.I.raise_("ValueError", "einsum: operand has wrong number of dimensions")
        dim = {}
        tot, deps, deg, inv, real, dt = tm.T(tm.PONE), NONE, 0, NONE, True, "i"
        for l, o in zip(labs, ops):
            i = self.I.info(st, o)
            t = i.term
            # rename to private axes first so that transposed operands match
            priv = []
            for k, (c, ax) in enumerate(zip(l, o.axes)):
                if ax == tm.ONEAX:
                    priv.append(ax)
                    continue
                n = tm.retag(ax, f"e{k}")
                t = tm.rename_axis(t, ax, n)
                priv.append(n)
            for c, ax, pv in zip(l, o.axes, priv):
                if c not in dim:
                    nx = ax
                    while nx != tm.ONEAX and nx in dim.values():
                        nx = self.fresh_tag(nx, list(dim.values()))
                    dim[c] = nx
                else:
                    u = self.unify(st, dim[c], ax)
                    if u is False:
                        self.I.raise_("ValueError", "einsum: operands could not be broadcast together")
                    if u is None:
                        return self.unk("einsum", st, *ops)
                if pv != dim[c] and pv != tm.ONEAX:
                    t = tm.rename_axis(t, pv, dim[c])
            tot = tm.tmap(tm.mul, tot, t)
            deps |= i.deps
            deg = deg_mul(deg, i.deg)
            inv |= i.inv
            real = real and i.im == RZ
            dt = djoin(dt, o.dt)
        for c in dim:
            if c not in out and dim[c] != tm.ONEAX:
                tot = tm.tsum(tot, dim[c])
                deps |= self.aggdeps([dim[c]])
                if tot is None:
                    return self.unk("einsum", st, *ops)
        return self.mkres(st, [dim[c] for c in out], dt, Info(tot, deps, None, RZ if real else None, deg, inv))

    @fun("trace")
    def f_trace(self, st, a, **kw):
        d = self.f_diagonal(st, a)
        return self.f_sum(st, d) if isinstance(d, (Arr, Num)) else d

    def f_diagonal(self, st, a, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or len(a.axes) != 2:
            return self.unk("diagonal", st, a)
        i = self.I.info(st, a)
        p, q = a.axes
        if p == q == tm.ONEAX:
            return self.I.newarr([p], a.dt, i)
        if self.unify(st, p, q) in (None, False):
            return self.unk("diagonal", st, a)
        t = i.term
        if tm.has_seg(t, p) or tm.has_seg(t, q):
            sp = tm.segments(p)
            alts = []
            for g, x in t.alts:
                d = dict(g)
                kp, kq = d.pop(("seg", p), None), d.pop(("seg", q), None)
                if kp is not None and kq is not None and kp != kq:
                    continue
                k = kp if kp is not None else kq
                if k is not None:
                    d[("seg", p)] = k
                x = tm.subst_axis(x, {u: v for u, v in zip(tm.inner_axes(q), tm.inner_axes(p)) if u != v and u != tm.ONEAX})
                alts.append((frozenset(d.items()), x))
            t = tm.mkterm(alts)
        else:
            t = tm.rename_axis(t, q, p)
        t = tm.tmap(lambda x: tm.subst_atoms(x, lambda at: tm.PONE if at.kind == "op" and at.key == ("delta",) and len(at.axes) == 2 and at.axes[0] == at.axes[1] else None), t)
        return self.I.newarr([p], a.dt, i.rep(term=t))

    @fun("diag", "diagonal")
    def f_diag(self, st, a, *r, **kw):
        a = self.A(st, self.I.pick(a, st))
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.f_diag(st, x), [a], st)
        if not isinstance(a, Arr) or r or kw:
            return self.unk("diag", st, a)
        if len(a.axes) == 2:
            return self.f_diagonal(st, a)
        i = self.I.info(st, a)
        p = a.axes[0]
        q = tm.retag(p, "r") if p != tm.ONEAX and p[0] != "lit" else (p if p == tm.ONEAX else ("pr", p, "r"))
        return self.diag_from(st, [p, q], i, a.dt)

    @fun("diag_indices")
    def f_diag_indices(self, st, n, **kw):
        ax = self.len_axis(st, n)
        if ax is None:
            return self.unk("diag_indices", st, n)
        x = self.iota(st, ax)
        return self.mktuple(st, [x, x])

    @fun("polyfit", "polyval", "poly1d", "cov", "corrcoef", "convolve", "correlate", "percentile", "quantile", "nanpercentile", "histogram", "bincount", "cross", "tensordot", "kron", "trapz", "trapezoid", "loadtxt", "genfromtxt", "piecewise", "select", "choose", "apply_along_axis", "vectorize", "fromiter", "frombuffer", "ix_", "unravel_index", "partition", "argpartition", "nanargsort")
    def f_other(self, st, *a, **kw):
        if isinstance(kw.get("out"), Arr):
            self.weak_store(st, kw["out"], self.unk("numpy function", st, *a), [])
        return self.unk("numpy function", st, *a)

    @fun("setdiff1d", "intersect1d", "union1d", "in1d", "isin")
    def f_sets(self, st, a, b, *r, _name="isin", **kw):
        a, b = self.A(st, a), self.A(st, b)
        pa, pb = (self.known_positions(st, x) if isinstance(x, Arr) and x.dt == "i" else None for x in (a, b))
        if pa is None or pb is None or r or kw:
            return self.unk("numpy function", st, a, b)
        if _name in ("in1d", "isin"):
            out = [Known(k in pb) for k in pa]
        else:
            x, y = set(pa), set(pb)
            out = [num(k) for k in sorted(x - y if _name == "setdiff1d" else x & y if _name == "intersect1d" else x | y)]
            if not out:
                return self.I.newarr([("lit", 0)], "i", Info(tm.T(tm.PZERO), NONE, RZ))
        return self.to_array(st, self.mklist(st, [("v", k) for k in out]))

    @fun("linalg.lstsq")
    def f_lstsq(self, st, B, x, rcond=None, **kw):
        B, x = self.A(st, self.I.pick(B, st)), self.A(st, self.I.pick(x, st))
        if isinstance(B, Choice) or isinstance(x, Choice):
            return self.I.over_choice(lambda p, q: self.f_lstsq(st, p, q, rcond, **kw), [B, x], st)
        bad = isinstance(B, Unknown) or isinstance(x, Unknown)
        if not bad and (not isinstance(B, Arr) or len(B.axes) != 2):
            self.I.raise_("LinAlgError", "lstsq needs a 2-D array")
        if bad or not isinstance(x, Arr) or len(x.axes) != 1:
            u = self.unk("lstsq", st, B, x)
            self.I.event("lstsq", B=None, x=None, deps=u.deps, st=st)
            return self.mktuple(st, [u, u, u, u])
        u = self.unify(st, B.axes[0], x.axes[0])
        if u is False:
            self.I.raise_("LinAlgError", "Incompatible dimensions")
        bi, xi = self.I.info(st, B), self.I.info(st, x)
        T, C = B.axes
        bound = [T, x.axes[0]]
        deps = bi.deps | xi.deps | self.aggdeps([T])
        inv = bi.inv | xi.inv | bi.mk | xi.mk
        dt = djoin(B.dt, x.dt, "f")
        real = dt != "c"
        rc = ()
        ta, tb = bi.term, tm.rename_axis(xi.term, x.axes[0], T) if x.axes[0] != T else xi.term
        self.I.event("lstsq", B=bi, Baxes=B.axes, x=xi, xaxes=x.axes, inv=inv, deps=deps, rcond=rcond)
        b = self.opterm("lstsq", [ta, tb], [C], [T], real=real)
        db = deg_mul(xi.deg, bi.deg, -1)
        mb = self.mkres(st, [C], dt, Info(b, deps, None, RZ if real else None, db, inv)) if C != tm.ONEAX else self.I.newarr([C], dt, Info(b, deps, None, RZ if real else None, db, inv))
        rs = self.opterm("lstsq:rss", [ta, tb], [], [T, C], nonneg=True)
        d2 = self.pw(xi.deg, 2)
        rss = self.I.newarr([tm.ONEAX], "f", Info(rs, deps, NONNEG, RZ, d2, inv))
        rank = Num("i", Info(self.opterm("lstsq:rank", [ta], [], [T, C], nonneg=True, integer=True), bi.deps | self.aggdeps([T]), NONNEG, RZ, 0, inv))
        sv = self.I.newarr([C], "f", Info(self.opterm("lstsq:sv", [ta], [C], [T], nonneg=True), bi.deps | self.aggdeps([T]), NONNEG, RZ, bi.deg, inv))
        self.I.mayraise(st, "LinAlgError", "lstsq may not converge")
        return self.mktuple(st, [mb, rss, rank, sv])

    def matop(self, st, name, A, axes, degf, dt=None, re=None, real=None):
        i = self.I.info(st, A)
        d = dt or A.dt
        d = djoin(d, "f") if d in "bi" else d
        rl = d != "c" if real is None else real
        t = self.opterm(name, [i.term], axes, [a for a in A.axes if a not in axes], real=rl, nonneg=re is NONNEG)
        n = Info(t, i.deps | self.aggdeps(A.axes), re, RZ if rl else None, degf(i.deg), i.inv | i.mk)
        return self.mkres(st, axes, d, n)

    def mat(self, st, A, name):
        A = self.A(st, self.I.pick(A, st))
        if isinstance(A, Unknown) or isinstance(A, Choice):
            return None
        if not isinstance(A, Arr) or len(A.axes) != 2:
            self.I.raise_("LinAlgError", f"{name} needs a 2-D array")
        return A

    @fun("linalg.inv")
    def f_inv(self, st, a, **kw):
        A = self.mat(st, a, "inv")
        if A is None:
            return self.unk("inv", st, a)
        self.I.mayraise(st, "LinAlgError", "Singular matrix")
        return self.matop(st, "inv", A, list(A.axes), lambda d: self.pw(d, -1))

    @fun("linalg.pinv")
    def f_pinv(self, st, a, *r, **kw):
        A = self.mat(st, a, "pinv")
        if A is None:
            return self.unk("pinv", st, a)
        self.I.mayraise(st, "LinAlgError", "SVD did not converge")
        return self.matop(st, "pinv", A, list(A.axes)[::-1], lambda d: self.pw(d, -1))

    @fun("linalg.svd")
    def f_svd(self, st, a, *r, **kw):
        A = self.mat(st, a, "svd")
        if A is None:
            u = self.unk("svd", st, a)
            return self.mktuple(st, [u, u, u])
        self.I.mayraise(st, "LinAlgError", "SVD did not converge")
        p, q = A.axes
        p2 = tm.retag(p, "s") if p != tm.ONEAX else p
        z = lambda d: d if isinstance(d, Bad) or d is None else 0
        U = self.matop(st, "svd:U", A, [p, p2], z)
        S = self.matop(st, "svd:S", A, [p2], lambda d: d, dt="f", re=NONNEG)
        V = self.matop(st, "svd:V", A, [p2, q], z)
        return self.mktuple(st, [U, S, V])

    @fun("linalg.eigvals", "linalg.eigvalsh")
    def f_eigvals(self, st, a, *r, **kw):
        A = self.mat(st, a, "eigvals")
        if A is None:
            return self.unk("eigvals", st, a)
        self.I.mayraise(st, "LinAlgError", "Eigenvalues did not converge")
        return self.matop(st, "eigvals", A, [A.axes[0]], lambda d: d, dt="c")

    @fun("linalg.eigh", "linalg.eig", "linalg.qr", "linalg.slogdet")
    def f_eig(self, st, a, *r, **kw):
        u = self.unk("decomposition", st, a)
        return self.mktuple(st, [u, u])

    @fun("linalg.cholesky")
    def f_cholesky(self, st, a, *r, **kw):
        A = self.mat(st, a, "cholesky")
        if A is None:
            return self.unk("cholesky", st, a)
        self.I.mayraise(st, "LinAlgError", "Matrix is not positive definite")
        return self.matop(st, "cholesky", A, list(A.axes), lambda d: self.pw(d, Fraction(1, 2)))

    @fun("linalg.solve")
    def f_solve(self, st, a, b, **kw):
        A, b = self.mat(st, a, "solve"), self.A(st, b)
        if A is None or not isinstance(b, Arr) or len(b.axes) != 1:
            return self.unk("solve", st, a, b)
        ai, bi = self.I.info(st, A), self.I.info(st, b)
        self.I.mayraise(st, "LinAlgError", "Singular matrix")
        dt = djoin(A.dt, b.dt, "f")
        t = self.opterm("solve", [ai.term, bi.term], [A.axes[1]], [A.axes[0]] + list(b.axes), real=dt != "c")
        return self.mkres(st, [A.axes[1]], dt, Info(t, ai.deps | bi.deps, None, RZ if dt != "c" else None, deg_mul(bi.deg, ai.deg, -1), ai.inv | bi.inv))

    @fun("linalg.norm")
    def f_norm(self, st, a, *r, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr) or r or kw:
            return self.unk("norm", st, a)
        return self.f_sqrt(st, self.f_sum(st, self.f_square(st, self.f_abs(st, a))))

    @fun("linalg.det", "linalg.matrix_rank", "linalg.cond", "linalg.multi_dot", "linalg.matrix_power")
    def f_lin_other(self, st, *a, **kw):
        return self.unk("linalg", st, *a)

    # ------------------------------------------------------------- spectra
    def speclab(self, deps):
        out = set(deps)
        for x in ("re", "im"):
            if "part:" + x in deps:
                out.add("spec:" + x)
        return frozenset(out)

    @fun("fft.rfft", "fft.fft", "fft.ifft", "fft.irfft")
    def f_rfft(self, st, x, *r, _name="fft.rfft", **kw):
        x = self.A(st, x)
        if not isinstance(x, Arr) or len(x.axes) != 1 or r or kw:
            return self.unk("fft", st, x)
        if _name == "fft.rfft" and x.dt == "c":
            self.I.raise_("TypeError", "ufunc 'rfft_n_even' did not contain a loop with signature matching complex input")
        i = self.I.info(st, x)
        ax = x.axes[0]
        n = tm.axis_len(ax)
        new = ax
        if _name == "fft.rfft":
            new = self.rfft_axis(ax, n)
        t = self.opterm(_name, [i.term], [new], [ax], real=False)
        return self.I.newarr([new], "c", Info(t, self.speclab(i.deps) | self.aggdeps([ax]), None, None, i.deg, i.inv))

    def rfft_axis(self, ax, n):
        return ("anon", tm.add(tm.floor_atom(tm.scale(n, (Fraction(1, 2), Fraction(0)))), tm.PONE), ("n",))

    @fun("signal.lombscargle")
    def f_lombscargle(self, st, t, x, f, *r, **kw):
        t, x, f = self.A(st, t), self.A(st, x), self.A(st, f)
        if any(not isinstance(q, Arr) for q in (t, x, f)):
            return self.unk("lombscargle", st, t, x, f)
        if x.dt == "c":
            self.I.raise_("TypeError", "lombscargle: complex data")
        u = self.unify(st, t.axes[0], x.axes[0])
        if u is False:
            self.I.raise_("ValueError", "Input arrays do not have the same size.")
        w = self.why("lombscargle")

        def deg(d, ks):
            c = deg_add(deg_mul(d, ks[0]), 0, w)
            return c if isinstance(c, Bad) else self.pw(ks[1], 2)

        o = self.tabfn(st, "lombscargle", [t, x], f, "f", deg, NONNEG)
        i = self.I.info(st, o)
        d = self.speclab(i.deps)
        o = self.I.newarr(o.axes, "f", i.rep(deps=d))
        return o

    @fun("signal.windows.hann", "signal.hann", "hanning", "signal.windows.hamming", "signal.windows.get_window", "signal.get_window", "hamming", "blackman", "bartlett", "signal.windows.boxcar", "signal.windows.blackman", "signal.windows.tukey")
    def f_hann(self, st, n, *r, _name="hann", **kw):
        n = self.I.pick(n, st)
        ax = self.len_axis(st, n)
        if ax is None:
            return self.unk("window", st, n)
        if ax == tm.ONEAX:
            return self.I.newarr([ax], "f", Info(tm.T(tm.PONE), NONE, iv_const(1)))
        return self.I.newarr([ax], "f", Info(tm.T(tm.opaque("window", (_name,), (ax,), nonneg=True)), self.I.deps(st, n), ((0.0, 1.0),)))

    @fun("signal.detrend", "signal.periodogram", "signal.welch", "signal.csd")
    def f_sig(self, st, *a, **kw):
        return self.unk("signal", st, *a)

    # ------------------------------------------------------------- random
    def rng(self, st, axes, deps=NONE, dt="f", deg=0):
        self.I.event("rng", what="random")
        t = tm.T(tm.opaque("rng", (self.I.loc[1], self.I.loc[2]), tuple(a for a in axes if a != tm.ONEAX)))
        n = Info(t, deps | {"rng"}, None, RZ, deg)
        if not axes:
            return Num(dt, n)
        return self.I.newarr(axes, dt, n)

    def rng_axes(self, st, shape):
        out = []
        for s in shape:
            ax = self.len_axis(st, s)
            if ax is None:
                return None
            if ax[0] == "lit" and ax[1] > 12:
                ax = ("anon", tm.pconst(ax[1]), ("rng",))
            if ax in out and ax != tm.ONEAX:
                ax = self.fresh_tag(ax, out)
            out.append(ax)
        return out

    @fun("random.multivariate_normal")
    def f_mvn(self, st, mean, cov, size=None, *r, **kw):
        m, c = self.A(st, mean), self.A(st, cov)
        deps = self.I.deps(st, mean) | self.I.deps(st, cov)
        if not isinstance(m, Arr):
            self.I.event("rng", what="random")
            return Unknown("random", deps | {"rng"})
        axs = [] if size is None else self.rng_axes(st, [size])
        if axs is None:
            self.I.event("rng", what="random")
            return Unknown("random", deps | {"rng"})
        mi = self.I.info(st, m)
        r = self.rng(st, axs + list(m.axes), deps, deg=mi.deg)
        if isinstance(c, Arr):
            ci = self.I.info(st, c)
            self.I.event("mvn", mean=mi, cov=ci, covaxes=c.axes)
            d = deg_add(self.pw(mi.deg, 2), ci.deg, self.why("random.multivariate_normal"))
            if isinstance(d, Bad):
                r.init = r.init.rep(deg=d)
                st.heap.pop(r.oid, None)
        return r

    @fun("random.randn", "random.rand")
    def f_randn(self, st, *shape, **kw):
        axs = self.rng_axes(st, shape)
        if axs is None:
            self.I.event("rng", what="random")
            return Unknown("random", frozenset(["rng"]))
        return self.rng(st, axs)

    @fun("random.normal", "random.random", "random.uniform", "random.standard_normal", "random.choice", "random.permutation", "random.randint", "random.default_rng", "random.RandomState", "random.shuffle", "random.sample", "random.random_sample", "random.get_state")
    def f_rand_other(self, st, *a, **kw):
        self.I.event("rng", what="random")
        d = NONE
        for v in a:
            d |= self.I.deps(st, v)
        return Unknown("random", d | {"rng"})

    @fun("random.seed", "random.set_state", "seterr", "seterrcall", "set_printoptions", "setbufsize")
    def f_setting(self, st, *a, _name="seed", **kw):
        self.I.event("global-setting", what="numpy." + _name)
        return self.unk("setting", st) if _name == "seterr" else PYNONE

    # ------------------------------------------------------- masked arrays
    def maskable(self, st, a):
        a = self.A(st, self.I.pick(a, st))
        return a

    @fun("ma.masked_invalid", "ma.fix_invalid")
    def f_masked_invalid(self, st, a, copy=None, **kw):
        a = self.maskable(st, a)
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.f_masked_invalid(st, x, copy, **kw), [a], st)
        if not isinstance(a, Arr):
            return self.unk("masked_invalid", st, a)
        i = self.I.info(st, a)
        n = i.rep(inv=NONE, mk=i.mk | i.inv)
        if self.known(copy, True) is False:
            self.mask_in_place(st, a, i.inv)
            return self.I.view(st, a, a.axes, n, ma=True)
        return self.I.newarr(a.axes, a.dt, n, unit=a.unit, ma=True)

    @fun("ma.getmaskarray")
    def f_getmaskarray(self, st, a, **kw):
        a = self.maskable(st, a)
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.f_getmaskarray(st, x), [a], st)
        if not isinstance(a, Arr):
            return self.unk("getmaskarray", st, a)
        i = self.I.info(st, a)
        if not i.mk or not a.ma:
            return self.I.newarr(a.axes, "b", Info(tm.T(tm.PZERO), NONE, RZ, ok=("bad", NONE)))
        t = self.masktok(i.mk, a.axes)
        return self.I.newarr(a.axes, "b", Info(t, self.tokdeps(i.mk), BOOL01, RZ, 0, ok=("bad", i.mk)))

    def masktok(self, toks, axes):
        if len(axes) == 1 and axes[0][0] == "lit" and toks:
            bad = [self.I.known_bad.get((t[0], axes[0])) for t in toks]
            if all(b is not None for b in bad):
                bad = set().union(*bad)
                return tm.mkterm([(frozenset([(("seg", axes[0]), k)]), tm.PONE if k in bad else tm.PZERO) for k in range(axes[0][1])])
        return tm.T(tm.opaque("badmask", tuple(sorted(toks)), tuple(x for x in axes if x != tm.ONEAX), nonneg=True, integer=True))

    def tokdeps(self, toks):
        return frozenset("valid:" + str(t[0]) for t in toks)

    @fun("ma.getmask")
    def f_getmask(self, st, a, **kw):
        return self.f_getmaskarray(st, a)

    @fun("ma.mask_or")
    def f_mask_or(self, st, a, b, **kw):
        a, b = self.A(st, a), self.A(st, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.unk("mask_or", st, a, b)
        return self.logical(st, "BitOr", a, b)

    @fun("ma.is_masked")
    def f_is_masked(self, st, a, **kw):
        a = self.I.pick(a, st)
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.f_is_masked(st, x), [a], st)
        if isinstance(a, Known):
            return num(False)
        a = self.A(st, a)
        if not isinstance(a, (Arr, Num)):
            return self.unk("is_masked", st, a)
        if isinstance(a, Num) or not a.ma or not self.I.info(st, a).mk:
            return num(False)
        toks = self.I.info(st, a).mk
        t = tm.T(tm.opaque("anybad", tuple(sorted(toks)), nonneg=True, integer=True))
        return Num("b", Info(t, self.tokdeps(toks), BOOL01), NOVAL, ("anybad", toks))

    @fun("ma.isMA", "ma.isMaskedArray", "ma.isarray")
    def f_isMA(self, st, a, **kw):
        a = self.I.pick(a, st)
        if isinstance(a, (Arr,)):
            return num(bool(a.ma))
        if isinstance(a, (Known, Num, Ref)):
            return num(False)
        return self.opaque_bool(st, "isMA", a)

    @fun("ma.array", "ma.asarray", "ma.asanyarray", "ma.masked_array", "ma.MaskedArray")
    def f_maarray(self, st, a, *r, **kw):
        a = self.maskable(st, a)
        if not isinstance(a, Arr):
            return self.unk("ma.array", st, a)
        i = self.I.info(st, a)
        m = self.kw(kw, "mask") or (r[1] if len(r) > 1 else None)
        n = i
        if m is not None:
            mm = self.A(st, m)
            mi = self.I.info(st, mm) if isinstance(mm, (Arr, Num)) else None
            if mi is not None and mi.ok and mi.ok[0] == "bad":
                n = i.rep(inv=i.inv - mi.ok[1], mk=i.mk | mi.ok[1])
            elif mi is not None and mi.term.rconst() == 0:
                pass
            else:
                n = i.rep(deps=i.deps | self.I.deps(st, mm), mk=i.mk | {("?", "masked")})
        if self.known(kw.get("copy"), False) is True:
            return self.I.newarr(a.axes, a.dt, n, unit=a.unit, ma=True)
        return self.I.view(st, a, a.axes, n, ma=True)

    def mask_in_place(self, st, a, toks):
        """Masking without a copy writes into a mask that is already there."""
        if a.ma and toks and a.root:
            self.I.event("mutate", root=frozenset(a.root), what="mask of the argument")

    @fun("ma.masked_where")
    def f_masked_cond(self, st, condition, a, copy=None):
        c, a = self.A(st, self.I.pick(condition, st)), self.maskable(st, a)
        if not isinstance(a, Arr) or not isinstance(c, (Arr, Num)):
            return self.unk("masked_where", st, c, a)
        i, ci = self.I.info(st, a), self.I.info(st, c)
        if ci.ok and ci.ok[0] == "bad":
            toks, n = ci.ok[1], i.rep(inv=i.inv - ci.ok[1], mk=i.mk | ci.ok[1])
        elif ci.term.rconst() == 0:
            toks, n = NONE, i
        else:
            toks = frozenset([("?", "masked")])
            n = i.rep(deps=i.deps | ci.deps, mk=i.mk | toks)
        if self.known(copy, True) is False:
            self.mask_in_place(st, a, toks)
            return self.I.view(st, a, a.axes, n, ma=True)
        return self.I.newarr(a.axes, a.dt, n, unit=a.unit, ma=True)

    @fun("ma.masked_equal", "ma.masked_values", "ma.masked_less", "ma.masked_greater", "ma.masked_outside", "ma.masked_object")
    def f_masked_where(self, st, *a, **kw):
        return self.unk("masked_where", st, *a)

    @fun("ma.zeros", "ma.ones", "ma.empty", "ma.masked_all")
    def f_mazeros(self, st, shape, *a, _name="ma.zeros", **kw):
        f = {"ma.zeros": self.f_zeros, "ma.ones": self.f_ones}.get(_name, self.f_empty)
        r = f(st, shape, *a, **kw)
        if isinstance(r, Arr):
            r.ma = True
        return r

    @fun("ma.filled")
    def f_filled(self, st, a, v=None, **kw):
        a = self.A(st, self.I.pick(a, st))
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.f_filled(st, x, v), [a], st)
        if isinstance(a, Num):
            return a
        if not isinstance(a, Arr):
            return self.unk("filled", st, a)
        i = self.I.info(st, a)
        v = v if v is not None else kw.get("fill_value")
        if not i.mk and a.ma is False:
            return a
        if not i.mk:
            return self.I.newarr(a.axes, a.dt, i, unit=a.unit)
        inv = i.inv
        if v is None or (isinstance(v, Known) and v.v is None):
            inv = inv | frozenset((t[0], "garbage") for t in i.mk)
            return self.I.newarr(a.axes, a.dt, i.rep(inv=inv, mk=NONE), unit=a.unit)
        x = self.A(st, v)
        isnan = isinstance(x, Num) and x.info.term.rconst() is None and x.info.re == ()
        inv = inv | (frozenset((t[0], "nan") for t in i.mk) if isnan else frozenset((t[0], "garbage") for t in i.mk))
        d = i.deps | self.I.deps(st, x)
        return self.I.newarr(a.axes, a.dt, i.rep(deps=d, inv=inv, mk=NONE), unit=a.unit)

    @fun("ma.getdata")
    def f_getdata(self, st, a, **kw):
        a = self.A(st, a)
        return self.dropmask(st, a) if isinstance(a, Arr) else a

    def compressed(self, st, a):
        """1-D unmasked data of a masked array."""
        i = self.I.info(st, a)
        if len(a.axes) != 1:
            return self.unk("compressed", st, a)
        if not i.mk:
            return self.I.newarr(a.axes, a.dt, i, unit=a.unit)
        good = Info(tm.tmap(lambda p: tm.sub(tm.PONE, p), self.masktok(i.mk, a.axes)), self.tokdeps(i.mk), BOOL01, RZ, 0, ok=("good", i.mk))
        m = self.I.newarr(a.axes, "b", good)
        r = self.arr_getitem(st, a, (m,))
        if isinstance(r, Arr):
            j = self.I.info(st, r)
            r = self.I.newarr(r.axes, r.dt, j.rep(mk=NONE, inv=j.inv - i.mk), unit=r.unit, ma=False)
        return r


def _x(v, c):
    return v if math.isinf(v) and c > 0 else float(v) * float(c)
