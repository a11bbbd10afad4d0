"""Indexing of arrays and containers: reads, views and stores."""

from fractions import Fraction

from . import terms as tm
from .vals import *
from .vals import NONE

NOG = frozenset()


def mk(alts):
    """Term of the alternatives without the size cap being hit by segments."""
    return tm.mkterm(alts)


class Index:
    # --------------------------------------------------------- positions
    def derive(self, t, ax, new):
        """Elements of t (over ax) selected / reordered along new (derived
        from ax): positions on ax become positions of the selection."""
        pos = tm.possym(ax, new)
        ix = next(iter(tm.ixsym(ax).m))[0][0] if ax != tm.ONEAX else None

        def f(a):
            return pos if a.id == ix else None

        f.bound = ax
        alts = []
        segs = tm.segments(ax)
        memo = {}
        for g, p in t.alts:
            if ix is not None and self._poly_has_ix(p, ix):
                p = tm.subst_atoms(p, f, memo)
            mp = {ax: new}
            g2 = []
            for k, v in g:
                if k == ("seg", ax):
                    k = ("segp", new)
                g2.append((k, v))
            if segs is not None and any(k[0] == "segp" for k, _ in g2):
                # alternatives written along their own segment
                j = dict(g2)[("segp", new)]
                s = segs[j]
                off = tm.PZERO
                for x in segs[:j]:
                    off = tm.add(off, tm.axis_len(x))
                if s != tm.ONEAX:
                    mp[s] = tm.ixaxis(tm.sub(pos, off))
            g = tm.gsubst(frozenset(g2), mp)
            if g is not None:
                alts.append((g, tm.subst_axis(p, mp)))
        return mk(alts)

    _ix_memo = {}

    def _has_ix(self, a, ix):
        if a.id == ix:
            return True
        if not a.key and not a.axes:
            return False
        k = (a.id, ix)
        r = self._ix_memo.get(k)
        if r is None:
            r = False
            for x in a.key:
                if isinstance(x, tm.Poly) and self._poly_has_ix(x, ix):
                    r = True
                    break
                if isinstance(x, tm.Atom) and self._has_ix(x, ix):
                    r = True
                    break
            if not r:
                r = any(isinstance(x, tuple) and x and x[0] == "ix" and self._poly_has_ix(x[1], ix) for x in a.axes)
            self._ix_memo[k] = r
        return r

    def _poly_has_ix(self, p, ix):
        k = (p, ix)
        r = self._ix_memo.get(k)
        if r is None:
            r = self._ix_memo[k] = any(self._has_ix(b, ix) for b in p.atoms())
        return r

    def single_atom(self, p):
        if len(p.m) == 1:
            (m, c), = p.m.items()
            if c == tm.C1 and len(m) == 1 and m[0][1] == 1:
                return tm.Atom.byid[m[0][0]]
        return None

    def norm_pos(self, p, ax):
        c = p.rconst()
        if c is not None and c < 0:
            return tm.add(tm.axis_len(ax), p)
        return p

    def locate(self, p, ax):
        """(segment number, index axis) when p is a position in one segment
        of ax, with index axis the tag to use there."""
        segs = tm.segments(ax)
        if segs is None:
            return None
        c = p.rconst()
        if c is not None and ax[0] == "lit":
            if not 0 <= c < len(segs):
                self.I.raise_("IndexError", f"index {c} is out of bounds for axis with size {len(segs)}")
            return int(c), tm.ONEAX
        off = tm.PZERO
        cand = None
        for k, s in enumerate(segs):
            d = tm.sub(p, off)
            dc = d.rconst()
            if s == tm.ONEAX:
                if dc == 0:
                    return k, s
            else:
                a = self.single_atom(d)
                if a is not None and a.key == ("ix",) and tm.untag(a.axes[0]) == tm.untag(s):
                    return k, a.axes[0]
                if dc is not None and dc >= 0 and cand is None:
                    cand = (k, ("ix", d))
                if dc is None and cand is None:
                    e = tm.sub(d, tm.axis_len(s)).rconst()
                    if e is not None and e < 0:
                        cand = (k, ("ix", d))
            off = tm.add(off, tm.axis_len(s))
        return cand

    def take(self, t, ax, p):
        """Element of t at position p of axis ax (p may vary along axes)."""
        if ax == tm.ONEAX:
            c = p.rconst()
            if c is not None and c not in (0, -1):
                self.I.raise_("IndexError", "index out of bounds for axis with size 1")
            return t
        p = self.norm_pos(p, ax)
        a = self.single_atom(p)
        if a is not None and a.key == ("ix",) and a.kind == "sym":
            y = a.axes[0]
            if tm.untag(y) == tm.untag(ax):
                return tm.rename_axis(t, ax, y)
            r = self.take_cat(t, ax, y)
            if r is not None:
                return r
        if a is not None and a.kind == "op" and a.key[0] == "pos" and a.axes and a.axes[0][0] != "ix":
            y = a.axes[0]
            b = y if tm.untag(a.key[1]) == tm.untag(ax) else tm.ONEAX
            while b[0] in ("pr", "sel", "flt", "perm"):
                b = b[1]
                if b[0] != "pr" and tm.untag(b) == tm.untag(ax):
                    return self.derive(t, ax, y)
        loc = self.locate(p, ax)
        if loc is not None:
            k, y = loc
            s, ts = tm.seg_alts(t, ax)[k]
            if ts is None:
                return tm.T(tm.opaque("unk", ("segment",)))
            return ts if s == tm.ONEAX else (tm.rename_axis(ts, s, y) if y[0] != "ix" else tm.tsubst(ts, {s: tm.ixaxis(y[1])}))
        if not tm.has_seg(t, ax):
            return tm.tsubst(t, {ax: tm.ixaxis(p)})
        alts = []
        segs = tm.segments(ax)
        off = tm.PZERO
        for k, s in enumerate(segs):
            for g, q in t.alts:
                d = dict(g)
                if d.get(("seg", ax), k) != k:
                    continue
                d.pop(("seg", ax), None)
                d[("segx", ax, ("ix", p))] = k
                if s != tm.ONEAX:
                    q = tm.subst_axis(q, {s: tm.ixaxis(tm.sub(p, off))})
                alts.append((frozenset(d.items()), q))
            off = tm.add(off, tm.axis_len(s))
        return mk(alts)

    def take_cat(self, t, ax, y):
        """Index runs over y, whose segments are a leading part of ax."""
        sa, sy = tm.segments(ax), tm.segments(y)
        if sy is None or sa is None or len(sy) > len(sa):
            if sa is not None and sy is None and sa and tm.untag(sa[0]) == tm.untag(y):
                s, ts = tm.seg_alts(t, ax)[0]
                return tm.rename_axis(ts, s, y) if ts is not None else None
            return None
        if any(tm.untag(x) != tm.untag(z) for x, z in zip(sa, sy)):
            return None
        parts = tm.seg_alts(t, ax)
        alts = []
        for k, z in enumerate(sy):
            s, ts = parts[k]
            if ts is None:
                return None
            ts = tm.rename_axis(ts, s, z)
            for g, q in ts.alts:
                alts.append((g | {(("seg", y), k)}, q))
        return mk(alts)

    def take_term(self, t, ax, pt):
        """take() for a position with guarded alternatives."""
        alts = []
        for g, p in pt.alts:
            r = self.take(t, ax, p)
            for g2, q in r.alts:
                if tm.consistent(g, g2):
                    alts.append((g | g2, q))
        if not alts:
            return tm.T(tm.opaque("unk", ("index",)))
        return mk(alts)

    # ------------------------------------------------------- index specs
    def index_list(self, st, arr, idx):
        """Per-dimension specs: ('full',) ('new',) ('slice', lo, hi, step)
        ('int', value) ('arr', value) ('mask', value); None when unknown."""
        items = list(idx) if isinstance(idx, tuple) else [idx]
        items = [self.I.pick(x, st) if isinstance(x, Value) else x for x in items]
        specs = []
        ell = None
        for x in items:
            if isinstance(x, Known) and x.v is Ellipsis:
                ell = len(specs)
                specs.append(("ell",))
            elif isinstance(x, Known) and x.v is None:
                specs.append(("new",))
            elif isinstance(x, Slice):
                if all(b is None or (isinstance(b, Known) and b.v is None) for b in (x.lo, x.hi, x.step)):
                    specs.append(("full",))
                else:
                    f = lambda b: None if b is None or (isinstance(b, Known) and b.v is None) else b
                    specs.append(("slice", f(x.lo), f(x.hi), f(x.step)))
            elif isinstance(x, Num):
                if x.dt == "b":
                    return None
                if x.dt not in "i":
                    if x.dt == "f" or x.dt == "U":
                        self.I.raise_("IndexError", "only integers, slices and arrays are valid indices")
                    return None
                specs.append(("int", x))
            elif isinstance(x, (Ref, Iter, Arr)):
                v = self.to_array(st, x) if not isinstance(x, Arr) else x
                if not isinstance(v, Arr):
                    return None
                if v.dt == "b":
                    w = self.known_mask(st, v)
                    specs.append(("mask", v) if w is None else ("arr", w))
                elif v.dt == "i":
                    specs.append(("arr", v))
                elif v.dt == "f" and v.axes == (("lit", 0),):
                    specs.append(("arr", v))
                elif v.dt in "fc":
                    self.I.raise_("IndexError", "arrays used as indices must be of integer (or boolean) type")
                else:
                    return None
            elif isinstance(x, Known) and isinstance(x.v, str):
                self.I.raise_("IndexError", "only integers, slices and arrays are valid indices")
            else:
                return None
        used = sum(len(s[1].axes) if s[0] == "mask" else 1 for s in specs if s[0] not in ("new", "ell"))
        nd = len(arr.axes)
        if used > nd:
            self.I.raise_("IndexError", f"too many indices for array: {nd}-dimensional, {used} were indexed")
        fill = [("full",)] * (nd - used)
        if ell is None:
            specs += fill
        else:
            specs[ell:ell + 1] = fill
        d = 0
        for k, s in enumerate(specs):
            if s[0] == "arr" and d < nd and arr.axes[d][0] == "perm":
                # every position of a reordered axis, in turn
                n = tm.axis_len(arr.axes[d]).rconst()
                if n is not None and self.known_positions(st, s[1]) == list(range(int(n))):
                    ax = arr.axes[d]
                    specs[k] = ("arr", self.I.newarr([ax], "i", Info(tm.T(tm.ixsym(ax)), self.I.info(st, s[1]).deps, ((0.0, float(n)),))))
            if s[0] != "new":
                d += len(s[1].axes) if s[0] == "mask" else 1
        return specs

    def known_mask(self, st, m):
        """Positions (an integer array) selected by a mask whose every
        element is known, else None."""
        if len(m.axes) != 1 or m.axes[0][0] != "lit" or not m.axes[0][1]:
            return None
        ax = m.axes[0]
        i = self.I.info(st, m)
        n = ax[1]
        vals = None
        if i.ok and i.ok[0] in ("bad", "good"):
            bad = [self.I.known_bad.get((t[0], ax)) for t in i.ok[1]]
            if not bad or any(b is None for b in bad):
                return None
            bad = set().union(*bad)
            vals = [(k in bad) == (i.ok[0] == "bad") for k in range(n)]
        else:
            vals = []
            for k in range(n):
                c = tm.tprune(i.term, {("seg", ax): k})
                c = c.rconst() if len(c.alts) == 1 else None
                if c is None:
                    return None
                vals.append(bool(c))
        pos = [k for k in range(n) if vals[k]]
        if not pos:
            return self.I.newarr([("lit", 0)], "i", Info(tm.T(tm.PZERO), NONE, RZ))
        return self.to_array(st, self.mklist(st, [("v", num(k)) for k in pos]))

    def known_numbers(self, st, a):
        """The elements of a short literal axis when each is a single number."""
        ax = a.axes[0]
        if ax != tm.ONEAX and (ax[0] != "lit" or ax[1] > 64):
            return None
        return [self.arr_getitem(st, a, num(k)) for k in range(1 if ax == tm.ONEAX else ax[1])]

    def known_positions(self, st, v):
        """The constants of an integer index array, else None."""
        if not isinstance(v, Arr) or len(v.axes) != 1:
            return None
        ax = v.axes[0]
        if ax != tm.ONEAX and (ax[0] != "lit" or not ax[1]):
            return None
        t = self.I.info(st, v).term
        out = []
        for k in range(1 if ax == tm.ONEAX else ax[1]):
            c = tm.tprune(t, {("seg", ax): k}) if ax != tm.ONEAX else t
            c = c.rconst() if len(c.alts) == 1 else None
            if c is None or c.denominator != 1:
                return None
            out.append(int(c))
        return out

    def slice_axis(self, st, ax, lo, hi, step):
        """(new axis, function Term -> Term) for a slice of one axis."""
        I = self.I
        sc = None
        if step is not None:
            sc = I.info(st, step).term.rconst() if isinstance(step, Num) else None
            if sc is None:
                return None
            if sc == 1:
                step = None
        n = tm.axis_len(ax)

        def bound(b, dflt):
            if b is None:
                return dflt
            if not isinstance(b, Num) or b.dt not in "bi":
                if isinstance(b, Num) and b.dt == "f":
                    I.raise_("TypeError", "slice indices must be integers")
                return None
            t = I.info(st, b).term
            p = t.single()
            if p is None or t.alts[0][0]:
                return tm.opaque("phi", (t,), nonneg=True, integer=True)
            c = p.rconst()
            if c is not None and c < 0:
                p = tm.add(n, p)
                k = p.rconst()
                if k is not None and k < 0:
                    p = tm.PZERO
            else:
                d = tm.sub(p, n).rconst()
                if d is not None and d > 0:
                    p = n
            return p

        if step is not None:
            if sc == -1 and lo is None and hi is None:
                if ax == tm.ONEAX:
                    return ax, lambda t: t
                new = ("perm", ax, ("rev",))
                if ax[0] == "lit":
                    k = ax[1]
                    return ax, lambda t: self.lit_gather(t, ax, ax, [k - 1 - i for i in range(k)])
                return new, lambda t: self.derive(t, ax, new)
            if ax[0] == "lit":
                sel = list(range(ax[1]))[slice(*[None if b is None else int(I.info(st, b).term.rconst()) for b in (lo, hi, step)])]
                new = tm.litax(len(sel)) if sel else ("lit", 0)
                return new, lambda t: self.lit_gather(t, ax, new, sel)
            new = ("anon", tm.opaque("slicelen", (n, repr(lo), repr(hi), sc), nonneg=True, integer=True), ("slice", ax, repr(lo), repr(hi), sc))
            base = tm.PZERO if lo is None else bound(lo, None)
            if base is None:
                return None
            return new, lambda t: self.affine(t, ax, tm.add(base, tm.scale(tm.ixsym(new), (sc, Fraction(0)))))
        l, h = bound(lo, tm.PZERO), bound(hi, n)
        if l is None or h is None:
            return None
        if l.is_zero() and h == n:
            return ax, lambda t: t
        if ax == tm.ONEAX:
            if l.rconst() is not None and h.rconst() is not None:
                if l.rconst() < h.rconst():
                    return ax, lambda t: t
                return ("lit", 0), lambda t: tm.T(tm.PZERO)
            return None
        segs = tm.segments(ax)
        if segs is not None:
            offs = [tm.PZERO]
            for s in segs:
                offs.append(tm.add(offs[-1], tm.axis_len(s)))
            i = offs.index(l) if l in offs else None
            j = offs.index(h) if h in offs else None
            if i is not None and j is not None:
                if i >= j:
                    if ax[0] == "lit" or i == j:
                        return ("lit", 0), lambda t: tm.T(tm.PZERO)
                    return None
                new = tm.mkcat(segs[i:j])
                return new, lambda t: self.seg_slice(t, ax, i, j, new)
            if ax[0] == "lit" and l.rconst() is not None and h.rconst() is not None:
                sel = list(range(ax[1]))[int(l.rconst()):int(h.rconst())]
                new = tm.litax(len(sel)) if sel else ("lit", 0)
                return new, lambda t: self.lit_gather(t, ax, new, sel)
        d = tm.sub(h, l)
        if d.rconst() == 1:
            return tm.ONEAX, lambda t: self.take(t, ax, l)
        new = ("anon", d, ("slice", ax, l, h))
        return new, lambda t: self.affine(t, ax, tm.add(l, tm.ixsym(new)))

    def affine(self, t, ax, p):
        return self.take(t, ax, p)

    def lit_gather(self, t, ax, new, sel):
        parts = tm.seg_alts(t, ax)
        if not sel:
            return tm.T(tm.PZERO)
        if len(sel) == 1:
            return parts[sel[0]][1]
        alts = []
        for k, i in enumerate(sel):
            for g, p in parts[i][1].alts:
                alts.append((g | {(("seg", new), k)}, p))
        return mk(alts)

    def seg_slice(self, t, ax, i, j, new):
        parts = tm.seg_alts(t, ax)[i:j]
        if len(parts) == 1:
            return parts[0][1] if parts[0][1] is not None else tm.T(tm.opaque("unk", ("segment",)))
        if not tm.has_seg(t, ax) and i == 0 and new != ax and all(len(ts.alts) == 1 for _, ts in parts):
            pass
        alts = []
        for k, (s, ts) in enumerate(parts):
            if ts is None:
                continue
            for g, p in ts.alts:
                alts.append((g | {(("seg", new), k)}, p))
        return mk(alts)

    def mask_axis(self, st, ax, mi):
        """(new axis, guards that hold on it, tokens removed)"""
        c = mi.term.rconst()
        if c == 1:
            return ax, NOG, NONE
        if mi.ok and mi.ok[0] == "good":
            toks = mi.ok[1]
            base = ax
            if ax[0] == "sel":
                base, old = ax[1], ax[2]
            else:
                old = NONE
            if not toks - old:
                return ax, frozenset([(("ok", ax, toks), 1)]), toks
            return ("sel", base, toks | old), frozenset([(("ok", ax, toks), 1)]), toks
        g = set()
        if mi.ok and mi.ok[0] == "bad":
            g.add((("ok", ax, mi.ok[1]), 0))
        p = mi.term.single()
        if p is not None:
            g |= self.cond_guard(p, 1)
        return ("flt", ax, mi.term), frozenset(g), NONE

    def cond_guard(self, p, val):
        """Guard for boolean polynomial p having value val (0/1)."""
        if len(p.m) > 1:
            q = tm.sub(tm.PONE, p)
            if len(q.m) == 1:
                return {(("c", q), bool(1 - val))}
        return {(("c", p), bool(val))}

    # -------------------------------------------------------------- read
    def arr_getitem(self, st, arr, idx):
        I = self.I
        specs = self.index_list(st, arr, idx)
        if specs is None:
            return self.unk("index", st, arr)
        info = I.info(st, arr)
        info = self.loop_read(st, arr, specs, info)
        t, deps, inv, mkk, ok, deg = info.term, info.deps, info.inv, info.mk, info.ok, info.deg
        re, im = info.re, info.im
        out = []  # result axes
        adv = [s for s in specs if s[0] in ("arr", "mask")]
        advpos = [i for i, s in enumerate(specs) if s[0] in ("arr", "mask", "int")] if adv else []
        # broadcast of several advanced indices
        advaxes = None
        basic = not adv
        dim = 0
        plan = []
        arrs = [s[1] for s in specs if s[0] == "arr"]
        used = [a for a in arr.axes]
        binfos = {}
        if len(arrs) == 1 and not any(s[0] == "mask" for s in specs):
            a = arrs[0]
            i = I.info(st, a)
            axs = list(a.axes)
            for k, x in enumerate(axs):
                if x != tm.ONEAX and x in used:
                    others = [y for d_, y in enumerate(arr.axes)]
                    # only clashes with axes that stay in the result matter
                    stays = self.staying_axes(specs, arr)
                    if x in stays:
                        n = self.fresh_tag(x, used + axs)
                        i = i.rep(term=tm.rename_axis(i.term, x, n))
                        axs[k] = n
            advaxes = axs
            binfos[id(a)] = i
        elif arrs:
            r = self.bcast(st, arrs)
            if r is None or any(s[0] == "mask" for s in specs):
                return self.unk("advanced index", st, arr, *arrs)
            advaxes, infos = r
            stays = self.staying_axes(specs, arr)
            for k, x in enumerate(list(advaxes)):
                if x != tm.ONEAX and x in stays:
                    n = self.fresh_tag(x, used + advaxes)
                    infos = [z.rep(term=tm.rename_axis(z.term, x, n)) for z in infos]
                    advaxes[k] = n
            for a, i in zip(arrs, infos):
                binfos[id(a)] = i
        placed = False
        contiguous = True
        if adv and len(advpos) > 1:
            contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        if adv and not contiguous and advaxes is not None:
            out += advaxes
            placed = True
        axes = list(arr.axes)

        def clash(new, t):
            """Rename the other dimensions that go by the name of a new axis."""
            if new != tm.ONEAX:
                for where, first in ((out, 0), (axes, dim)):
                    for k in range(first, len(where)):
                        if where[k] == new:
                            n = self.fresh_tag(new, used + axes + out)
                            t = tm.rename_axis(t, new, n)
                            where[k] = n
            return t

        for s in specs:
            if s[0] == "new":
                out.append(tm.ONEAX)
                continue
            ax = axes[dim]
            dim += 1
            if s[0] == "full":
                out.append(ax)
            elif s[0] == "slice":
                r = self.slice_axis(st, ax, *s[1:])
                if r is None:
                    return self.unk("slice", st, arr)
                for b in s[1:]:
                    if isinstance(b, Num):
                        deps = deps | b.info.deps
                new, f = r
                if new != ax:
                    t = clash(new, t)
                t = f(t)
                out.append(new)
            elif s[0] == "int":
                i = I.info(st, s[1])
                self.bounds_check(st, i.term, ax)
                t = self.take_term(t, ax, i.term)
                deps = deps | i.deps
            elif s[0] == "arr":
                i = binfos[id(s[1])]
                if s[1].axes == (("lit", 0),):
                    t = tm.T(tm.PZERO)
                else:
                    t = self.take_term(t, ax, i.term)
                deps = deps | i.deps
                deg = deg if not isinstance(i.deg, Bad) else i.deg
                if not placed:
                    out += advaxes
                    placed = True
            else:
                m = s[1]
                if len(m.axes) != 1:
                    return self.unk("2-D mask", st, arr, m)
                mi = I.info(st, m)
                u = self.unify(st, ax, m.axes[0])
                if u is False:
                    I.raise_("IndexError", "boolean index did not match indexed array")
                if u is None:
                    I.mayraise(st, "IndexError", "mask length")
                    return self.unk("mask of another length", st, arr, m)
                mt = mi.rep(term=tm.rename_axis(mi.term, m.axes[0], ax)) if m.axes[0] != ax else mi
                if ax == tm.ONEAX and mt.term.rconst() == 0:
                    out.append(("lit", 0))
                    t = tm.T(tm.PZERO)
                    placed = True
                    continue
                if ax == tm.ONEAX and mt.term.rconst() != 1:
                    return self.unk("mask on length 1", st, arr, m)
                new, g, toks = self.mask_axis(st, ax, mt)
                t = tm.tprune(t, self.plain_guards(g))
                if new != ax:
                    t = clash(new, t)
                    t = self.derive(t, ax, new)
                inv, mkk = inv - toks, mkk - toks
                deps = deps | mi.deps
                if isinstance(mi.deg, Bad):
                    deg = mi.deg
                out.append(new)
                placed = True
        res = Info(t, deps, re, im, deg, inv, mkk, ok)
        if info.ok is not None and inv != info.inv:
            res.ok = (ok[0], ok[1])
        out = self.dedupe(out, res)
        if out is None:
            return self.unk("index with clashing axes", st, arr)
        if not out:
            return Num(arr.dt, self.const_fold(res, arr.dt), self.const_val(res, arr.dt), unit=arr.unit)
        if basic:
            return I.view(st, arr, out, res)
        return I.newarr(out, arr.dt, res, unit=arr.unit, ma=arr.ma)

    def dedupe(self, out, res):
        seen = []
        for k, x in enumerate(out):
            if x != tm.ONEAX and x in seen:
                return None
            seen.append(x)
        return out

    def const_fold(self, i, dt):
        c = i.term.rconst() if len(i.term.alts) == 1 else None
        if c is not None and dt in "bif":
            return i.rep(re=iv_const(float(c)))
        return i

    def const_val(self, i, dt):
        c = i.term.rconst() if len(i.term.alts) == 1 and not i.term.alts[0][0] else None
        if c is None or i.deps or i.inv:
            return NOVAL
        return bool(c) if dt == "b" else int(c) if dt == "i" and c.denominator == 1 else float(c) if dt == "f" else NOVAL

    def staying_axes(self, specs, arr):
        out = []
        dim = 0
        for s in specs:
            if s[0] == "new":
                continue
            if s[0] in ("full", "slice"):
                out.append(arr.axes[dim])
            dim += 1
        return out

    def plain_guards(self, g):
        return dict(g)

    def bounds_check(self, st, t, ax):
        n = tm.axis_len(ax).rconst()
        c = t.rconst() if len(t.alts) == 1 else None
        if n is not None and c is not None and not -n <= c < n:
            self.I.raise_("IndexError", f"index {c} is out of bounds for axis 0 with size {n}")

    def loop_read(self, st, arr, specs, info):
        """Reading an array that the current map loop is filling: only the
        element of the current iteration is known."""
        ml = getattr(self.I, "maploop", None)
        while ml is not None:
            if arr.oid in ml["stores"]:
                it = ml["it"]
                ok = False
                for s in specs:
                    if s[0] == "int":
                        p = self.I.info(st, s[1]).term
                        if all(self.index_of(q, it) for q in p.polys()):
                            ok = True
                if not ok:
                    t = tm.T(tm.opaque("weak", ("readback", info.term), tuple(x for x in arr.axes if x != tm.ONEAX), real=False))
                    return info.rep(term=t)
            ml = ml["outer"]
        return info

    def index_of(self, p, it):
        a = self.single_atom(p)
        if a is not None and a.key == ("ix",) and a.axes[0] == it:
            return True
        axs = set(tm.inner_axes(it))
        return any(x in axs for x in p.axes())

    # ------------------------------------------------------------- store
    def arr_setitem(self, st, arr, idx, v):
        I = self.I
        specs = self.index_list(st, arr, idx)
        v = I.pick(v, st)
        if isinstance(v, Ext) and v.path in ("numpy.ma.masked",):
            return self.weak_store(st, arr, self.masked_const(st), specs, mask=True)
        v = self.to_array(st, v) if not isinstance(v, (Num, Arr)) else v
        if isinstance(v, Choice):
            v = self.unk("store of alternatives", st, v)
        if specs is None or isinstance(v, Unknown) or not self.isnum(v):
            return self.weak_store(st, arr, v, specs or [])
        if any(s[0] == "new" for s in specs):
            return self.weak_store(st, arr, v, specs)
        if len([s for s in specs if s[0] in ("arr", "mask")]) == 1 and any(s[0] == "arr" and s[1].axes != (("lit", 0),) for s in specs) and not any(s[0] == "int" for s in specs):
            if self.store_each(st, arr, specs, v):
                return
        vi = I.info(st, v)
        if arr.dt in "bif" and v.dt == "c":
            # numpy refuses (scalars) or discards the imaginary part (arrays)
            if isinstance(v, Num):
                I.raise_("TypeError", "can't convert complex to float")
            I.event("complex-discard", term=vi.term)
            vi = vi.rep(term=tm.tmap(tm.real, vi.term), im=((0.0, 0.0),))
        if arr.dt == "i" and v.dt == "f":
            vi = vi.rep(term=tm.tmap(lambda p: tm.fn("trunc", p), vi.term))
        if arr.dt in "if" and v.dt in "U":
            I.raise_("ValueError", "could not convert string to float")
        # masks of unknown selections: try regions
        r = self.region(st, arr, specs, v, vi)
        if r is None:
            return self.weak_store(st, arr, v, specs)
        I.set_info(st, arr, r, "item assignment")

    def store_each(self, st, arr, specs, v):
        """Store through an array of known positions, one by one."""
        d = next(k for k, s in enumerate(specs) if s[0] == "arr")
        pos = self.known_positions(st, specs[d][1])
        if pos is None or arr.axes[d][0] != "lit" or len(set(pos)) != len(pos):
            return False
        back = len(specs) - d  # the value's axis, counted from its end
        full = Slice(PYNONE, PYNONE, PYNONE)
        for k, q in enumerate(pos):
            w = v
            if isinstance(v, Arr) and len(v.axes) >= back and v.axes[-back] != tm.ONEAX:
                if v.axes[-back] != ("lit", len(pos)):
                    return False
                at = len(v.axes) - back
                w = self.arr_getitem(st, v, tuple(num(k) if j == at else full for j in range(len(v.axes))))
            elif isinstance(v, Arr) and len(v.axes) >= back:
                at = len(v.axes) - back
                w = self.arr_getitem(st, v, tuple(num(0) if j == at else full for j in range(len(v.axes))))
            idx = []
            for j, s in enumerate(specs):
                idx.append(num(q) if j == d else full if s[0] == "full" else s[1] if s[0] == "int" else Slice(*(PYNONE if b is None else b for b in s[1:])))
            self.arr_setitem(st, arr, tuple(idx), w)
        return True

    def masked_const(self, st):
        return Num("f", Info(tm.T(tm.opaque("const", ("masked",))), NONE, (), deg=ANY))

    def weak_store(self, st, arr, v, specs, mask=False):
        I = self.I
        old = I.info(st, arr)
        vi = I.info(st, v) if isinstance(v, Value) else const_info(0)
        sig = []
        deps = NONE
        for s in specs or ():
            if s[0] in ("int", "arr", "mask"):
                i = I.info(st, s[1])
                sig.append((s[0], i.term))
                deps = deps | i.deps
            elif s[0] == "slice":
                for b in s[1:]:
                    if isinstance(b, Num):
                        i = I.info(st, b)
                        sig.append(i.term)
                        deps = deps | i.deps
                sig.append(s[0])
            else:
                sig.append(s[0])
        mp = {}
        ml = getattr(I, "maploop", None)
        n = 0
        while ml is not None:
            for x in tm.inner_axes(ml["it"]):
                if x[0] == "pr":
                    mp[x] = tm.retag(x, "bdw%d" % n)
            ml["weak"].add(arr.oid)
            ml = ml["outer"]
            n += 1
        key = (old.term, tuple(tm.tsubst(x, mp) if isinstance(x, tm.Term) else (x[0], tm.tsubst(x[1], mp)) if isinstance(x, tuple) else x for x in sig), tm.tsubst(vi.term, mp))
        key = tm.closed(key, arr.axes)
        t = tm.T(tm.patom(tm.atom("op", ("weak",) + key, tuple(x for x in arr.axes if x != tm.ONEAX), arr.dt != "c")))
        j = info_join(old, vi)
        re = old.re if mask else iv_join(old.re, vi.re)
        deg = deg_join(old.deg, vi.deg)
        if deg is None and old.deg is not None and vi.deg is not None and not isinstance(old.deg, Bad) and not isinstance(vi.deg, Bad):
            deg = None
        uninit = "uninit" in old.deps
        I.set_info(st, arr, Info(t, old.deps | vi.deps | deps, re, iv_join(old.im, vi.im), deg, old.inv | vi.inv, old.mk | vi.mk, None), "item assignment")

    def maploop_for(self, it):
        ml = getattr(self.I, "maploop", None)
        while ml is not None:
            if it in tm.inner_axes(ml["it"]) or it == ml["it"]:
                return ml
            ml = ml["outer"]
        return None

    def region(self, st, arr, specs, v, vi):
        """Info of arr after a store into a describable region, else None."""
        I = self.I
        old = I.info(st, arr)
        vaxes = list(self.axes(v))
        t = vi.term
        # result dims of the indexed region, to align the value's axes
        dims = []  # (kind, axis, data)
        resax = []
        loops = []
        deps = vi.deps
        for s, ax in zip(specs, arr.axes):
            if s[0] == "full":
                dims.append(("full", ax))
                resax.append((ax, len(dims) - 1))
            elif s[0] == "slice":
                r = self.region_slice(st, ax, s)
                if r is None:
                    return None
                if r[0] != "full" and r[3] != tm.ONEAX:
                    # the two axes of a block stay apart
                    used = {x for x, _ in resax}
                    if r[3] in used:
                        r = (*r[:3], self.fresh_tag(r[3], used))
                if r[0] == "full":
                    resax.append((ax, len(dims)))
                else:
                    resax.append((r[3], len(dims)))
                dims.append(r)
            elif s[0] == "int":
                i = I.info(st, s[1])
                deps = deps | i.deps
                p = i.term.single()
                self.bounds_check(st, i.term, ax)
                if ax == tm.ONEAX:
                    dims.append(("full", ax))
                    continue
                r = self.region_int(st, ax, i.term)
                if r is None:
                    return None
                dims.append(r)
                if r[0] in ("map", "mapseg"):
                    loops.append(r)
            elif s[0] == "mask":
                m = s[1]
                if len(m.axes) != 1:
                    return None
                u = self.unify(st, ax, m.axes[0])
                if u is False:
                    I.raise_("IndexError", "boolean index did not match indexed array")
                if u is None:
                    return None
                mi = I.info(st, m)
                if m.axes[0] != ax:
                    mi = mi.rep(term=tm.rename_axis(mi.term, m.axes[0], ax))
                deps = deps | mi.deps
                new, g, toks = self.mask_axis(st, ax, mi)
                dims.append(("mask", ax, new, g, mi, toks))
                resax.append((new, len(dims) - 1))
            elif s[0] == "arr":
                i = I.info(st, s[1])
                p = i.term.single()
                a = self.single_atom(p) if p is not None else None
                if len(s[1].axes) == 1 and a is not None and a.key == ("ix",) and tm.untag(a.axes[0]) == tm.untag(ax):
                    dims.append(("full", ax))
                    resax.append((ax, len(dims) - 1))
                elif len(s[1].axes) == 1 and a is not None and a.key[0] == "pos" and a.axes[0][0] in ("sel", "flt") and tm.untag(a.axes[0][1]) == tm.untag(ax) == tm.untag(a.key[1]):
                    F = a.axes[0]
                    if F[0] == "flt" and isinstance(F[2], tm.Term) and F[2].single() is not None:
                        g = frozenset(self.cond_guard(F[2].single(), 1))
                    elif F[0] == "sel" and F[1][0] != "sel":
                        g = frozenset([(("ok", F[1], F[2]), 1)])
                    else:
                        return None
                    dims.append(("mask", ax, F, g, None, NONE))
                    resax.append((F, len(dims) - 1))
                else:
                    return None
        # align value axes with the region axes (broadcasting)
        if len(vaxes) > len(resax):
            lead = vaxes[: len(vaxes) - len(resax)]
            if any(x != tm.ONEAX for x in lead):
                I.raise_("ValueError", "could not broadcast input array into shape")
            vaxes = vaxes[len(lead):]
        moved = []
        for (rx, d), vx in zip(resax[len(resax) - len(vaxes):], vaxes):
            if vx == tm.ONEAX:
                continue
            if vx == rx:
                moved.append((vx, rx))
                continue
            u = self.unify(st, rx, vx)
            if u is False or rx == tm.ONEAX:
                I.raise_("ValueError", f"could not broadcast input array from shape {tm.short(vx)} into shape {tm.short(rx)}")
            if u is None:
                I.mayraise(st, "ValueError", "shapes may differ in assignment")
                return None
            moved.append((vx, rx))
        t = tm.rename_axes(t, [x for x, _ in moved], [x for _, x in moved])
        whole = all(d[0] in ("full", "map") for d in dims)
        # deps / intervals / degree
        full_over = whole
        for r in loops:
            ml = self.maploop_for(r[2])
            if ml is None:
                return None
            ml["stores"].add(arr.oid)
        if full_over:
            deg = vi.deg
            nd = Info(t, deps, vi.re, vi.im, deg, vi.inv, vi.mk, vi.ok)
            if loops:
                # elements of other iterations keep what they will be given
                nd = nd.rep(inv=vi.inv)
            return nd
        news = self.merge_region(arr, dims, old.term, t)
        if news is None:
            return None
        masks = [d for d in dims if d[0] == "mask"]
        olddeps, oldinv, oldre, olddeg = old.deps, old.inv, old.re, old.deg
        if masks:
            deps = deps | (masks[0][4].deps if masks[0][4] is not None else NONE)
        # once every element has been written the initial content is gone
        if "uninit" in olddeps and not self.mentions_uninit(news):
            olddeps = olddeps - {"uninit"}
        inv = vi.inv | oldinv
        if len(masks) == 1 and all(d[0] in ("full", "mask") for d in dims) and masks[0][4] is not None and masks[0][4].ok and masks[0][4].ok[0] == "bad":
            # the bad samples are overwritten
            inv = vi.inv | (oldinv - masks[0][4].ok[1])
        deg = deg_join(olddeg, vi.deg)
        return Info(news, olddeps | deps, iv_join(oldre, vi.re), iv_join(old.im, vi.im), deg, inv, old.mk | vi.mk, None)

    def mentions_uninit(self, t):
        return any(self.has_op(p, "uninit") for _, p in t.alts)

    def has_op(self, p, name, seen=None):
        for a in p.atoms():
            if a.kind == "op" and a.key[0] == name:
                return True
            for k in a.key:
                if isinstance(k, tm.Poly) and self.has_op(k, name):
                    return True
        return False

    def region_slice(self, st, ax, s):
        r = self.slice_axis(st, ax, *s[1:])
        if r is None:
            return None
        new, f = r
        if new == ax:
            if s[3] is None:
                return ("full", ax)
            return None
        if new == ("lit", 0):
            return None
        segs = tm.segments(ax)
        I = self.I

        def pol(b, d):
            if b is None:
                return d
            p = I.info(st, b).term.single()
            if p is None:
                return None
            c = p.rconst()
            return tm.add(tm.axis_len(ax), p) if c is not None and c < 0 else p

        if s[3] is not None:
            return None
        lo, hi = pol(s[1], tm.PZERO), pol(s[2], tm.axis_len(ax))
        if lo is None or hi is None:
            return None
        if segs is not None:
            offs = [tm.PZERO]
            for x in segs:
                offs.append(tm.add(offs[-1], tm.axis_len(x)))
            if lo in offs and hi in offs:
                return ("segs", ax, list(range(offs.index(lo), offs.index(hi))), new)
            return None
        return ("rg", ax, (lo, hi), new)

    def region_int(self, st, ax, term):
        p = term.single()
        ks = []
        if p is None or term.alts[0][0]:
            # every alternative in its own segment of the same loop axis
            its = {k for g, _ in term.alts for (k, _v) in g if k[0] == "seg"}
            if len(its) != 1:
                return None
            (key,) = its
            it = key[1]
            segs = tm.segments(ax)
            m = {}
            if segs is None:
                return None
            for g, q in term.alts:
                loc = self.locate(self.norm_pos(q, ax), ax)
                if loc is None or loc[1][0] == "ix":
                    return None
                m[dict(g).get(key)] = loc[0]
            return ("mapseg", ax, it, m)
        p = self.norm_pos(p, ax)
        a = self.single_atom(p)
        if a is not None and a.key == ("ix",):
            y = a.axes[0]
            if self.maploop_for(y) is None:
                return None
            if tm.untag(y) == tm.untag(ax):
                return ("map", ax, y)
            sa, sy = tm.segments(ax), tm.segments(y)
            if sa is not None and sy is not None and len(sy) <= len(sa) and all(tm.untag(i) == tm.untag(j) for i, j in zip(sa, sy)):
                return ("mapseg", ax, y, {k: k for k in range(len(sy))})
        loc = self.locate(p, ax)
        if loc is None:
            if tm.segments(ax) is None and (p.const() is not None or tm.sub(tm.axis_len(ax), p).const() is not None):
                return ("rg", ax, (p, tm.add(p, tm.PONE)), tm.ONEAX)
            return None
        k, y = loc
        if y == tm.ONEAX:
            return ("segs", ax, [k], tm.ONEAX)
        if y[0] == "ix":
            return None
        if self.maploop_for(y) is not None:
            return ("mapseg1", ax, y, k)
        return None

    def merge_region(self, arr, dims, old, new):
        """Guarded term: new inside the region, old outside."""
        # masks / ranges as guards
        combos = [((), True)]  # list of (tuple of ('seg',ax),k), inside?
        for d in dims:
            if d[0] == "segs":
                ax = d[1]
                nseg = len(tm.segments(ax))
                combos = [(c + ((ax, k),), ins and k in d[2]) for c, ins in combos for k in range(nseg)]
            elif d[0] == "mapseg":
                ax = d[1]
                nseg = len(tm.segments(ax))
                tgt = set(d[3].values())
                combos = [(c + ((ax, k),), ins and k in tgt) for c, ins in combos for k in range(nseg)]
            elif d[0] == "mapseg1":
                ax = d[1]
                nseg = len(tm.segments(ax))
                combos = [(c + ((ax, k),), ins and k == d[3]) for c, ins in combos for k in range(nseg)]
        if len(combos) > 64:
            return None
        alts = []
        for c, ins in combos:
            g0 = frozenset((("seg", ax), k) for ax, k in c)
            o = old
            for ax, k in c:
                s, o2 = tm.seg_alts(o, ax)[k]
                if o2 is None:
                    o2 = tm.T(tm.opaque("unk", ("segment",)))
                o = o2
            if not ins:
                for g, p in o.alts:
                    alts.append((g | g0, p))
                continue
            n = new
            for d in dims:
                if d[0] == "segs":
                    k = dict(c)[d[1]]
                    if len(d[2]) > 1:
                        parts = tm.seg_alts(n, d[3])
                        n = parts[d[2].index(k)][1]
                        if n is None:
                            return None
                    elif d[3] not in (tm.ONEAX,):
                        seg = tm.segments(d[1])[k]
                        if d[3] != seg:
                            n = tm.rename_axis(n, d[3], seg)
                elif d[0] == "mapseg":
                    k = dict(c)[d[1]]
                    j = [jj for jj, kk in d[3].items() if kk == k][0]
                    z = tm.segments(d[2])[j]
                    n = tm.tprune(n, {("seg", d[2]): j})
                    # left in terms of the loop's own segment; bound later
            gm = [(NOG, n)]
            outs = []
            rg = [d for d in dims if d[0] in ("mask", "rg")]
            if not rg:
                for g, p in n.alts:
                    alts.append((g | g0, p))
                continue
            if len(rg) > 1:
                return None
            d = rg[0]
            if d[0] == "mask":
                ng = d[3]
                if d[2] != d[1]:
                    n = tm.rename_axis(n, d[2], d[1]) if len(tm.inner_axes(d[2])) == len(tm.inner_axes(d[1])) else tm.tsubst(n, {d[2]: d[1]})
                if not ng:
                    if d[2] == d[1]:
                        for g, p in n.alts:
                            alts.append((g | g0, p))
                        continue
                    if d[4] is None:
                        return None
                    # a mask that differs between parts of the axis
                    for gm_, q in d[4].term.alts:
                        k = q.rconst()
                        for val, src in ((1, n), (0, o)):
                            if k is not None and k != val:
                                continue
                            side = gm_ | (self.cond_guard(q, val) if k is None else NOG)
                            for g, p in src.alts:
                                if tm.consistent(g, side):
                                    alts.append((g | g0 | side, p))
                    continue
                inside = frozenset(ng)
                keys = dict(ng)
                flip = lambda v: (not v) if isinstance(v, bool) else 1 - v
                outside = frozenset((k, flip(v)) for k, v in ng)
            else:
                lo, hi = d[2]
                below = tm.comparison("lt", tm.sub(tm.ixsym(d[1]), lo)) if lo.const() is None or lo.rconst() > 0 else tm.PZERO
                before = tm.comparison("lt", tm.sub(tm.ixsym(d[1]), hi)) if hi != tm.axis_len(d[1]) else tm.PONE
                if d[3] != tm.ONEAX:
                    n = tm.tsubst(n, {d[3]: tm.ixaxis(tm.sub(tm.ixsym(d[1]), lo))})
                for x, p, q, src in ((1, below, None, o), (0, below, before, n), (0, below, before, o)):
                    side = self.cond_guard(p, x) if p.const() is None else NOG
                    if p.const() is not None and p.rconst() != x:
                        continue
                    if q is not None:
                        y = 1 if src is n else 0
                        if q.const() is not None and q.rconst() != y:
                            continue
                        side = frozenset(side) | (frozenset(self.cond_guard(q, y)) if q.const() is None else NOG)
                    for g, p_ in src.alts:
                        if tm.consistent(g, side):
                            alts.append((g | g0 | frozenset(side), p_))
                continue
            for g, p in n.alts:
                if tm.consistent(g, inside):
                    alts.append((g | g0 | inside, p))
            for g, p in o.alts:
                if tm.consistent(g, outside):
                    alts.append((g | g0 | outside, p))
        return mk(alts)
