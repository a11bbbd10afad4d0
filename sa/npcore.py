"""Array semantics: conversion, broadcasting, elementwise operations."""

import datetime
from fractions import Fraction

from . import terms as tm
from .vals import *
from .vals import NONE

ORDER = "bifc"


class Dt(Value):
    """A numpy dtype."""

    __slots__ = ("letter", "unit")

    def __init__(self, letter, unit=None):
        self.letter, self.unit = letter, unit

    def __repr__(self):
        return f"Dt({self.letter})"


UNIT_MS = {"ns": Fraction(1, 10**6), "us": Fraction(1, 1000), "ms": Fraction(1), "s": Fraction(1000),
           "m": Fraction(60000), "h": Fraction(3600000), "D": Fraction(86400000), "W": Fraction(7 * 86400000)}


def djoin(*dts):
    ds = [d for d in dts if d is not None]
    if "O" in ds:
        return "O"
    if all(d in ORDER for d in ds):
        return max(ds, key=ORDER.index)
    for d in ("M", "m", "U"):
        if d in ds:
            return d
    return "O"


def parse_date_ms(s):
    """Milliseconds since 1970-01-01 of an ISO date string, or None."""
    s = s.strip()
    try:
        if s.startswith("0000"):
            d = datetime.datetime.fromisoformat("0004" + s[4:])
            return (d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(milliseconds=1) - 1461 * 86400000
        d = datetime.datetime.fromisoformat(s)
        if d.tzinfo is not None:
            return None
        us = (d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(microseconds=1)
        return us // 1000
    except ValueError:
        pass
    import re

    m = re.fullmatch(r"(\d{4})(?:-(\d\d))?", s)
    if m:
        try:
            return (datetime.datetime(int(m[1]), int(m[2] or 1), 1) - datetime.datetime(1970, 1, 1)) // datetime.timedelta(milliseconds=1)
        except ValueError:
            return None
    return None


class Core:
    """Mixin of NP: everything about axes and elementwise values."""

    # ------------------------------------------------------ conversion
    def isnum(self, v):
        return isinstance(v, (Num, Arr))

    def axes(self, v):
        return v.axes if isinstance(v, Arr) else ()

    def unk(self, why, st, *vals):
        d = NONE
        for v in vals:
            if isinstance(v, Value):
                d = d | self.I.deps(st, v)
        return self.I.unknown(why, d)

    def to_array(self, st, v, want0=False):
        """Num / Arr for an array_like; Unknown when not modelled."""
        v = self.I.pick(v, st)
        if isinstance(v, (Num, Arr, Unknown)):
            return v
        if isinstance(v, Known):
            if isinstance(v.v, str):
                return Num("U", Info(tm.T(tm.opaque("const", (repr(v.v),))), v.deps), v.v)
            if v.v is None:
                return Num("O", Info(tm.T(tm.opaque("const", ("None",))), v.deps), NOVAL)
            return self.unk("array of constant", st, v)
        if isinstance(v, Ref) and v.kind in ("list", "tuple"):
            return self.stack_items(st, st.heap[v.oid].items, st.heap[v.oid].deps)
        if isinstance(v, Iter):
            return self.stack_items(st, v.items, v.deps)
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.to_array(st, x), [v], st)
        return self.unk("array_like", st, v)

    def stack_items(self, st, items, deps=NONE):
        """New leading axis from list items."""
        if not items:
            return self.I.newarr([("lit", 0)], "f", Info(tm.T(tm.PZERO), deps, (), deg=ANY))
        parts = []
        for it in items:
            if it[0] == "opt":
                return self.I.unknown("array of conditional items", deps)
            x = self.to_array(st, it[-1])
            if isinstance(x, Unknown):
                return Unknown(x.why, x.deps | deps)
            if isinstance(x, Choice):
                return self.unk("array of alternatives", st, x)
            ax = tm.ONEAX if it[0] == "v" else it[1]
            if ax is None or ax[0] == "count":
                return self.unk("array of counted items", st, x)
            parts.append((ax, x))
        nd = {len(self.axes(x)) for _, x in parts}
        if len(nd) > 1:
            self.I.raise_("ValueError", "inhomogeneous array")
        inner = self.common_axes(st, [x for _, x in parts])
        if inner is None:
            return self.I.unknown("ragged array", deps)
        iaxes, infos = inner
        dt = djoin(*[x.dt for _, x in parts])
        unit = next((x.unit for _, x in parts if getattr(x, "unit", None)), None)
        return self.concat(st, [(ax, i) for (ax, _), i in zip(parts, infos)], 0, iaxes, dt, deps, unit=unit)

    def common_axes(self, st, xs):
        """Same-shaped values -> (axes, infos over them)."""
        axes = list(self.axes(xs[0]))
        infos = [self.I.info(st, xs[0])]
        for x in xs[1:]:
            i = self.I.info(st, x)
            ax2 = self.axes(x)
            if len(ax2) != len(axes):
                return None
            for p, q in zip(axes, ax2):
                if p != q:
                    r = self.unify(st, p, q)
                    if r is None:
                        return None
                    if r is False:
                        self.I.raise_("ValueError", "all the input array dimensions must match")
                    if p == tm.ONEAX or q == tm.ONEAX:
                        return None
            i = i.rep(term=tm.rename_axes(i.term, ax2, axes))
            infos.append(i)
        return axes, infos

    def concat(self, st, parts, dim, rest_axes, dt, deps=NONE, unit=None, ma=False):
        """Concatenate (axis, Info) parts along a new axis placed at dim."""
        rest_axes = list(rest_axes)
        if len(parts) == 1:
            ax, i = parts[0]
            if ax in rest_axes and ax != tm.ONEAX:
                k = rest_axes.index(ax)
                n = tm.retag(ax, "r")
                i = i.rep(term=tm.rename_axis(i.term, ax, n))
                rest_axes[k] = n
            return self.I.newarr(rest_axes[:dim] + [ax] + rest_axes[dim:], dt, i.rep(deps=i.deps | deps), unit=unit, ma=ma)
        flat = []
        for ax, i in parts:
            if ax[0] == "lit" and ax[1] == 0:
                continue
            segs = tm.segments(ax)
            if segs is None:
                flat.append((ax, i.term))
            else:
                for (s, t) in self.seg_terms(i.term, ax):
                    flat.append((s, t))
        if not flat:
            return self.I.newarr(rest_axes[:dim] + [("lit", 0)] + rest_axes[dim:], dt, parts[0][1], unit=unit, ma=ma)
        cat = tm.mkcat([a for a, _ in flat])
        if len(flat) == 1:
            term = flat[0][1]
        else:
            alts = []
            key = ("seg", cat)
            for k, (s, t) in enumerate(flat):
                for g, p in t.alts:
                    alts.append((g | {(key, k)}, p))
            term = tm.mkterm(alts) if len(alts) <= tm.MAXALT else tm.Term(tuple(alts))
        inf = None
        for _, i in parts:
            inf = i if inf is None else Info(term, inf.deps | i.deps, iv_join(inf.re, i.re), iv_join(inf.im, i.im),
                                             deg_join(inf.deg, i.deg), inf.inv | i.inv, inf.mk | i.mk, inf.ok if inf.ok == i.ok else None)
        # a degree conflict between parts is kept as unknown per part; mark it
        degs = [i.deg for _, i in parts]
        inf = inf.rep(term=term, deps=inf.deps | deps)
        for d in degs:
            if isinstance(d, Bad):
                inf = inf.rep(deg=d)
        if cat in rest_axes and cat != tm.ONEAX:
            # the new axis takes the fresh tag: only its own segment guards move
            if cat[0] != "lit":
                return self.I.unknown("array over twice the same composite axis", inf.deps)
            n = self.fresh_tag(cat, set(rest_axes))
            term = self.retag_new_axis(flat, n)
            inf = inf.rep(term=term)
            cat = n
        axes = rest_axes[:dim] + [cat] + rest_axes[dim:]
        return self.I.newarr(axes, dt, inf, unit=unit, ma=ma)

    def retag_new_axis(self, flat, n):
        alts = []
        for k, (s, t) in enumerate(flat):
            for g, p in t.alts:
                alts.append((g | {(("seg", n), k)}, p))
        return tm.mkterm(alts) if len(alts) <= tm.MAXALT else tm.Term(tuple(alts))

    def seg_terms(self, term, ax):
        """[(segment axis, Term over it)] of a term over a cat / lit axis."""
        out = []
        for s, t in tm.seg_alts(term, ax):
            out.append((s, t if t is not None else tm.T(tm.opaque("unk", ("segment",)))))
        return out

    # -------------------------------------------------------- broadcast
    def unify(self, st, p, q):
        """Common axis of two dimensions, None unknown, False mismatch."""
        if p == q:
            return p
        if p == tm.ONEAX:
            return q
        if q == tm.ONEAX:
            return p
        if tm.untag(p) == tm.untag(q):
            return p
        bp, tp = (p[1], p[2]) if p[0] == "sel" else (p, NONE)
        bq, tq = (q[1], q[2]) if q[0] == "sel" else (q, NONE)
        if bp == bq and ((tp - tq) | (tq - tp)) <= st.absent:
            return p
        lp, lq = tm.axis_len(p), tm.axis_len(q)
        if lp is not None and lp == lq:
            return p
        cp, cq = lp.rconst(), lq.rconst()
        if cp is not None and cq is not None and cp != cq:
            return False
        if self.lengths_unrelated(p, q):
            return False
        d = tm.sub(lp, lq).rconst()
        if d is not None and d != 0:
            return False
        return None

    def root_axis(self, ax):
        while ax[0] in ("sel", "flt", "perm", "pr", "fmap"):
            ax = ax[1]
        if ax[0] == "anon" and isinstance(ax[2], tuple) and ax[2] and ax[2][0] == "slice":
            return self.root_axis(ax[2][1])
        return ax

    def lengths_unrelated(self, p, q):
        a, b = p, q
        if a[0] in ("anon",) or b[0] in ("anon",):
            return False
        if a[0] == "sel" and b[0] in ("sel", "base") or b[0] == "sel" and a[0] in ("sel", "base"):
            return True
        return a[0] in ("base",) and b[0] in ("base", "cat", "lit") or b[0] == "base" and a[0] in ("cat", "lit")

    def bcast(self, st, vals):
        """Broadcast: (axes, [Info]) or None when shapes are not comparable."""
        infos = [self.I.info(st, v) for v in vals]
        shapes = [list(self.axes(v)) for v in vals]
        nd = max(len(s) for s in shapes)
        axes = []
        for d in range(nd):
            tgt = tm.ONEAX
            cols = []
            for k, s in enumerate(shapes):
                j = d - (nd - len(s))
                if j >= 0:
                    cols.append((k, s[j]))
            for k, a in cols:
                u = self.unify(st, tgt, a)
                if u is False:
                    self.I.raise_("ValueError", f"operands could not be broadcast together: {tm.short(tgt)} and {tm.short(a)}")
                if u is None:
                    self.I.mayraise(st, "ValueError", "shapes may differ")
                    return None
                if tgt == tm.ONEAX:
                    tgt = a
            if tgt[0] == "lit":
                # constants along a literal axis take the reordered axis of the others
                for k, a in cols:
                    if a[0] == "perm" and all(x in (tgt, a, tm.ONEAX) for _, x in cols):
                        if not any(self._along(infos[j].term, x) for j, x in cols if x == tgt):
                            tgt = a
                        break
            if tgt != tm.ONEAX and tgt in axes:
                tgt = self.fresh_tag(tgt, axes)
            for k, a in cols:
                if a != tgt and a != tm.ONEAX:
                    infos[k] = infos[k].rep(term=self.ren_seg(infos[k].term, a, tgt))
            axes.append(tgt)
        return axes, infos

    def _along(self, t, ax):
        """The term varies along the axis."""
        return tm.has_seg(t, ax) or any(ax in p.axes() for _, p in t.alts)

    def fresh_tag(self, ax, used):
        for tag in ("r", "r2", "r3", "r4"):
            n = tm.retag(ax, tag)
            if n not in used:
                return n
        raise AssertionError("axis tags exhausted")

    def ren_seg(self, t, a, b):
        return tm.rename_axis(t, a, b)

    # ------------------------------------------------------ elementwise
    def ew(self, st, f, vals, dt, re=None, im=None, deg=0, ok=None, unit=None, name="op"):
        """Elementwise operation on already converted values."""
        for v in vals:
            if isinstance(v, Unknown) or not self.isnum(v):
                return self.unk(name + " of unknown", st, *vals)
        if all(isinstance(v, Num) for v in vals):
            infos = [self.I.info(st, v) for v in vals]
            axes = []
        else:
            r = self.bcast(st, vals)
            if r is None:
                return self.unk("shape mismatch", st, *vals)
            axes, infos = r
        t = tm.tmap(f, *[i.term for i in infos])
        deps, inv, mk = NONE, NONE, NONE
        for i in infos:
            deps |= i.deps
            inv |= i.inv
            mk |= i.mk
        rr = re(*[i for i in infos]) if callable(re) else re
        ii = im(*[i for i in infos]) if callable(im) else (im if im is not None else (((0.0, 0.0),) if dt != "c" else None))
        dg = deg(*[i for i in infos]) if callable(deg) else deg
        okk = ok(*[i for i in infos]) if callable(ok) else ok
        c = t.rconst() if not axes and dt in "bif" else None
        if c is not None:
            rr = iv_const(float(c))
        info = Info(t, deps, rr, ii, dg, inv, mk, okk)
        ma = any(isinstance(v, Arr) and v.ma for v in vals)
        if not axes:
            val = NOVAL
            if c is not None and not deps:
                if dt == "b":
                    val = bool(c)
                elif dt == "i" and c.denominator == 1:
                    val = int(c)
                elif dt == "f":
                    val = float(c)
            return Num(dt, info, val, unit=unit)
        return self.I.newarr(axes, dt, info, unit=unit, ma=ma)

    def why(self, what):
        return lambda: f"{what} at {self.I.where()}"

    def operand(self, st, v):
        v = self.I.pick(v, st)
        if isinstance(v, Known):
            if v.v is None:
                return v
            return v
        if isinstance(v, (Ref, Iter)):
            return self.to_array(st, v)
        return v

    # ------------------------------------------------------------ binop
    def binop(self, st, op, a, b):
        I = self.I
        a, b = I.pick(a, st), I.pick(b, st)
        r = self.py_binop(st, op, a, b)
        if r is not None:
            return r
        a, b = self.operand(st, a), self.operand(st, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.unk("arithmetic", st, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return I.over_choice(lambda x, y: self.binop(st, op, x, y), [a, b], st)
        if not self.isnum(a) or not self.isnum(b):
            I.raise_("TypeError", f"unsupported operand types for {op}: {a!r} and {b!r}"[:120])
        if op == "MatMult":
            return self.f_dot(st, a, b)
        if "M" in (a.dt, b.dt) or "m" in (a.dt, b.dt):
            return self.time_binop(st, op, a, b)
        if "U" in (a.dt, b.dt):
            I.raise_("TypeError", f"unsupported operand type for {op}: string")
        return self.arith(st, op, a, b)

    def arith(self, st, op, a, b):
        dt = djoin(a.dt, b.dt)
        w = self.why(op)
        if op in ("Add", "Sub"):
            f = tm.add if op == "Add" else tm.sub
            fi = iv_add if op == "Add" else iv_sub
            if dt == "b":
                dt = "i"
            return self.ew(st, f, [a, b], dt, lambda x, y: fi(x.re, y.re), lambda x, y: fi(x.im, y.im),
                           lambda x, y: deg_add(x.deg, y.deg, w), name=op)
        if op == "Mult":
            if dt == "b":
                dt = "i"

            def re(x, y):
                if x.im == y.im == ((0.0, 0.0),):
                    return iv_mul(x.re, y.re)
                return iv_sub(iv_mul(x.re, y.re), iv_mul(x.im, y.im))

            def im(x, y):
                if x.im == y.im == ((0.0, 0.0),):
                    return ((0.0, 0.0),)
                return iv_add(iv_mul(x.re, y.im), iv_mul(x.im, y.re))

            return self.ew(st, tm.mul, [a, b], dt, self.square_iv(a, b, re), im, lambda x, y: deg_mul(x.deg, y.deg), name=op)
        if op == "Div":
            dt = djoin(dt, "f")

            def re(x, y):
                if y.im == ((0.0, 0.0),):
                    self.check_div(st, b, y)
                    if x.im == ((0.0, 0.0),):
                        return self.ratio_iv(x, y)
                    return iv_mul(x.re, iv_inv(y.re)) if y.re is not None else None
                return None

            def im(x, y):
                if x.im == ((0.0, 0.0),) and y.im == ((0.0, 0.0),):
                    return ((0.0, 0.0),)
                if y.im == ((0.0, 0.0),) and y.re is not None and x.im is not None:
                    return iv_mul(x.im, iv_inv(y.re))
                return None

            return self.ew(st, self.safe_div, [a, b], dt, re, im, lambda x, y: deg_mul(x.deg, y.deg, -1), name=op)
        if op == "Pow":
            return self.power(st, a, b, dt)
        if op == "Mod":
            return self.modulo(st, a, b)
        if op == "FloorDiv":
            return self.ew(st, lambda p, q: tm.floor_atom(self.safe_div(p, q)), [a, b], dt,
                           lambda x, y: iv_mono(lambda z: z if z in (INF, -INF) else float(z // 1), iv_mul(x.re, iv_inv(y.re))) if x.re is not None and iv_inv(y.re) is not None else None,
                           None, lambda x, y: self.deg0(deg_mul(x.deg, y.deg, -1), "floor division"), name=op)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if dt == "b":
                return self.boolop(st, op, a, b)
            return self.ew(st, lambda p, q: tm.fn(op, p, q), [a, b], dt, None, None, None, name=op)
        return self.unk("operator " + op, st, a, b)

    def deg0(self, d, what):
        """Result degree 0, but only a scale-free argument is allowed."""
        if isinstance(d, Bad) or d is None:
            return d
        if d is ANY or d == 0:
            return 0
        return Bad(f"{what} of a quantity in data units at {self.I.where()}")

    def square_iv(self, a, b, re):
        def f(x, y):
            if x.term == y.term and x.im == ((0.0, 0.0),) and y.im == ((0.0, 0.0),):
                r = re(x, y)
                return iv_meet(((0.0, INF),), r)
            return re(x, y)

        return f

    def ratio_iv(self, x, y):
        """Interval of a quotient of reals, using 0 <= x <= y when provable."""
        inv = iv_inv(y.re)
        return iv_mul(x.re, inv) if x.re is not None and inv is not None else (
            ((0.0, INF),) if iv_subset(x.re, 0, INF) and iv_subset(y.re, 0, INF) else None)

    def safe_div(self, p, q):
        return tm.div(p, q)

    def check_div(self, st, b, i):
        if i.deps and i.re is not None and iv_has0(i.re) and i.term.rconst() is None:
            self.I.event("div0", deps=i.deps, re=i.re, term=i.term)
        elif i.re is None and i.deps:
            self.I.event("div?", deps=i.deps, term=i.term)
        elif i.re:
            self.I.event("divok", deps=i.deps, re=i.re)

    def power(self, st, a, b, dt):
        bi = self.I.info(st, b)
        e = bi.term.rconst() if isinstance(b, Num) else None
        if e is not None:
            n = int(e) if e.denominator == 1 else None
            rdt = dt if (n is not None and n >= 0) else djoin(dt, "f")

            def re(x, _y):
                if x.im != ((0.0, 0.0),):
                    return None
                r = x.re
                if n is not None and n >= 0:
                    if n % 2 == 0:
                        m = iv_abs(r)
                        return iv_mono(lambda z: INF if z == INF else z**n, m)
                    return iv_mono(lambda z: z if z in (INF, -INF) else z**n, r)
                if r is None:
                    return None
                if n is not None:
                    v = iv_inv(r)
                    if n == -1:
                        self.check_div(st, a, x)
                        return v
                    return iv_mono(lambda z: INF if z == INF else z ** (-n), iv_abs(v)) if n % 2 == 0 else None
                return iv_mono(lambda z: INF if z == INF else z ** float(e), r, (0.0, INF)) if e > 0 else ((0.0, INF),)

            def deg(x, _y):
                if isinstance(x.deg, Bad) or x.deg is None or x.deg is ANY:
                    return x.deg
                return x.deg * e if e.denominator == 1 else Fraction(x.deg) * e

            return self.ew(st, lambda p, q: tm.power(p, e), [a, b], rdt, re, None, deg, name="Pow")
        return self.ew(st, lambda p, q: tm.fn("pow", p, q, real=p.all_real() and q.all_real()), [a, b], djoin(dt, "f"),
                       lambda x, y: ((0.0, INF),) if iv_subset(x.re, 0, INF) else None, None,
                       lambda x, y: self.deg0(deg_add(x.deg, 0, self.why("power")), "power") if not (x.deg == 0 or x.deg is ANY) else self.deg0(y.deg, "exponent"), name="Pow")

    def modulo(self, st, a, b):
        def re(x, y):
            if y.re is not None and y.re and y.re[0][0] == y.re[-1][1] and y.re[0][0] > 0:
                q = y.re[0][0]
                if x.re and iv_subset(x.re, 0, q, 0):
                    return x.re
                return ((0.0, q),)
            return None

        return self.ew(st, tm.mod, [a, b], djoin(a.dt, b.dt), re, None, lambda x, y: deg_add(x.deg, y.deg, self.why("modulo")), name="Mod")

    def boolop(self, st, op, a, b):
        def f(p, q):
            if op == "BitAnd":
                return tm.mul(p, q)
            s = tm.add(p, q)
            k = tm.mul(p, q)
            return tm.sub(s, k if op == "BitOr" else tm.scale(k, (Fraction(2), Fraction(0))))

        def ok(x, y):
            if x.ok and y.ok:
                if op == "BitAnd" and x.ok[0] == y.ok[0] == "good":
                    return ("good", x.ok[1] | y.ok[1])
                if op == "BitOr" and x.ok[0] == y.ok[0] == "bad":
                    return ("bad", x.ok[1] | y.ok[1])
            return None

        r = self.ew(st, f, [a, b], "b", ((0.0, 1.0),), None, lambda x, y: deg_join(x.deg, y.deg), ok, name=op)
        if isinstance(r, Num):
            la, lb = getattr(a, "lenof", None), getattr(b, "lenof", None)
            if op == "BitOr" and la and lb and la[0] == lb[0] == "anybad":
                r.lenof = ("anybad", la[1] | lb[1])
        return r

    def time_binop(self, st, op, a, b):
        x, y = a.dt, b.dt
        u = a.unit or b.unit or "ms"
        if op == "Sub" and x == "M" and y == "M":
            r = self.ew(st, tm.sub, [a, b], "m", lambda p, q: iv_sub(p.re, q.re), name=op, unit=self.finer(a.unit, b.unit))
            return r
        if op in ("Add", "Sub") and ((x == "M" and y in "mi") or (x in "mi" and y == "M" and op == "Add")
                                     or (x == "m" and y in "mi") or (x == "i" and y == "m")):
            A = self.int_to_td(st, a, u)
            B = self.int_to_td(st, b, u)
            dt = "M" if "M" in (x, y) else "m"
            return self.ew(st, tm.add if op == "Add" else tm.sub, [A, B], dt,
                           lambda p, q: (iv_add if op == "Add" else iv_sub)(p.re, q.re), name=op, unit=self.finer(a.unit, b.unit))
        if op == "Div" and x == "m" and y == "m":
            r = self.ew(st, tm.div, [a, b], "f", None, name=op)
            return self.nat_nan(r)
        if op == "FloorDiv" and x == "m" and y == "m":
            return self.ew(st, lambda p, q: tm.floor_atom(tm.div(p, q)), [a, b], "i", None, name=op)
        if op in ("Mult", "Div") and x == "m" and y in "if":
            return self.ew(st, tm.mul if op == "Mult" else tm.div, [a, b], "m", None, name=op, unit=a.unit)
        if op == "Mult" and x in "if" and y == "m":
            return self.ew(st, tm.mul, [a, b], "m", None, name=op, unit=b.unit)
        self.I.raise_("TypeError", f"cannot {op} {x} and {y}")

    def nat_nan(self, r):
        return r

    def finer(self, a, b):
        if a is None or b is None:
            return a or b
        return a if UNIT_MS.get(a, 1) <= UNIT_MS.get(b, 1) else b

    def int_to_td(self, st, a, unit):
        if a.dt != "i":
            return a
        k = tm.pconst(UNIT_MS.get(unit, 1))
        return self.ew(st, lambda p: tm.mul(p, k), [a], "m", None, unit=unit)

    # ----------------------------------------------- python-level binop
    def py_binop(self, st, op, a, b):
        I = self.I
        ka, kb = isinstance(a, Known), isinstance(b, Known)
        if ka and isinstance(a.v, str):
            if op == "Add":
                if kb and isinstance(b.v, str):
                    return Known(a.v + b.v, a.deps | b.deps)
                if isinstance(b, Num) and b.dt == "U":
                    return Num("U", Info(tm.T(tm.opaque("strcat", (a.v, b.info.term))), a.deps | b.info.deps))
                if isinstance(b, Unknown):
                    return self.unk("str +", st, a, b)
                I.raise_("TypeError", "can only concatenate str")
            if op == "Mod":
                return self.str_result(st, a, b)
            if op == "Mult":
                return self.str_result(st, a, b)
        if isinstance(a, Num) and a.dt == "U":
            if op in ("Add", "Mod", "Mult"):
                return self.str_result(st, a, b)
        if isinstance(a, Ref) and a.kind in ("list", "tuple"):
            ca = st.heap[a.oid]
            if op == "Add":
                if isinstance(b, Ref) and b.kind == a.kind:
                    cb = st.heap[b.oid]
                    r = Ref(a.kind)
                    st.heap[r.oid] = ListCell(ca.items + cb.items, ca.deps | cb.deps)
                    return r
                if isinstance(b, Arr) or isinstance(b, Unknown):
                    return None
                I.raise_("TypeError", f"can only concatenate {a.kind}")
            if op == "Mult" and isinstance(b, Num) and b.dt in "bi":
                r = Ref(a.kind)
                if b.val is not NOVAL and int(b.val) * len(ca.items) <= 512:
                    st.heap[r.oid] = ListCell(ca.items * max(0, int(b.val)), ca.deps)
                    return r
                if len(ca.items) == 1:
                    ax = b.lenof if isinstance(b.lenof, tuple) and b.lenof and b.lenof[0] in ("base", "cat", "sel", "flt", "perm", "lit", "one", "anon") else None
                    p = b.info.term.single()
                    if ax is None and p is not None:
                        ax = ("anon", p, ("rep",))
                    if ax is not None:
                        st.heap[r.oid] = ListCell([("ax", ax, ca.items[0][-1])], ca.deps)
                        return r
                return self.unk("list repeat", st, a, b)
        if isinstance(b, Ref) and b.kind in ("list", "tuple") and op == "Mult" and isinstance(a, Num) and a.dt in "bi":
            return self.py_binop(st, op, b, a)
        if isinstance(a, Ref) and a.kind in ("set", "dictview") and isinstance(b, Ref):
            if op in ("BitOr", "BitAnd", "Sub", "BitXor"):
                return self.setop(st, op, a, b)
        if isinstance(a, Ref) and isinstance(st.heap.get(a.oid), DictCell) and isinstance(b, Ref) and op == "BitOr":
            r = Ref("dict")
            st.heap[r.oid] = DictCell()
            self.dict_update(st, r, a, mutate=False)
            self.dict_update(st, r, b, mutate=False)
            return r
        return None

    def str_result(self, st, *vs):
        d = NONE
        for v in vs:
            d |= self.I.deps(st, v)
        return Num("U", Info(tm.T(tm.opaque("str", (self.I.loc[1],))), d))

    # ------------------------------------------------------------ unary
    def unary(self, st, op, v):
        v = self.I.pick(v, st)
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.unary(st, op, x), [v], st)
        v = self.operand(st, v)
        if isinstance(v, Unknown):
            return v
        if not self.isnum(v):
            self.I.raise_("TypeError", f"bad operand type for unary {op}")
        if v.dt == "U":
            self.I.raise_("TypeError", "bad operand type for unary op: str")
        if op == "USub":
            r = self.ew(st, tm.neg, [v], "i" if v.dt == "b" else v.dt, lambda x: iv_neg(x.re), lambda x: iv_neg(x.im), lambda x: x.deg, unit=v.unit)
            if isinstance(r, Num) and isinstance(v, Num) and v.val is not NOVAL:
                r.val = -v.val
            return r
        if op == "UAdd":
            return v
        if op == "Invert":
            if v.dt == "b":
                return self.lognot(st, v)
            if isinstance(v, Num) and v.val is not NOVAL:
                return num(~int(v.val))
            return self.unk("invert", st, v)
        return self.unk("unary " + op, st, v)

    def lognot(self, st, v):
        def ok(x):
            return ("good" if x.ok[0] == "bad" else "bad", x.ok[1]) if x.ok else None

        return self.ew(st, lambda p: tm.sub(tm.PONE, p), [v], "b", ((0.0, 1.0),), None, lambda x: x.deg, ok)

    # ---------------------------------------------------------- compare
    def bool_term(self, op, d):
        """Term of  d op 0  (op in lt, le, gt, ge, eq, ne), real d."""
        if op == "gt":
            return self.bool_term("lt", tm.neg(d))
        if op == "ge":
            return tm.sub(tm.PONE, self.bool_term("lt", d))
        if op == "le":
            return tm.sub(tm.PONE, self.bool_term("lt", tm.neg(d)))
        if op == "ne":
            return tm.sub(tm.PONE, self.bool_term("eq", d))
        if op == "eq" and d.const() is None and (self.distinct_index(d) or self.distinct_text(d)):
            return tm.PZERO
        return tm.comparison(op, d)

    def distinct_text(self, d):
        """Is d the difference of two different strings?"""
        if len(d.m) != 2:
            return False
        xs = []
        for mono, c in d.m.items():
            if len(mono) != 1 or mono[0][1] != 1 or c[1] or abs(c[0]) != 1:
                return False
            a = tm.Atom.byid[mono[0][0]]
            if a.kind != "op" or a.key[0] != "const" or a.key[1][:1] not in "'\"":
                return False
            xs.append(a)
        return sum(c[0] for c in d.m.values()) == 0

    def distinct_index(self, d):
        """Difference of the positions of two different texts in one table."""
        if len(d.m) != 2 or d.m.get(()) is not None:
            return False
        ks = []
        for m, c in d.m.items():
            if len(m) != 1 or m[0][1] != 1:
                return False
            a = tm.Atom.byid[m[0][0]]
            if a.kind != "op" or a.key[0] != "idx" or c[1] != 0:
                return False
            ks.append((a.key[1], a.key[2], c[0]))
        return ks[0][0] == ks[1][0] and ks[0][1] != ks[1][1] and ks[0][2] == -ks[1][2] and all(isinstance(k[1], str) for k in ks)

    OPS = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}

    def compare(self, st, op, a, b):
        I = self.I
        a, b = I.pick(a, st), I.pick(b, st)
        if op in ("Is", "IsNot"):
            r = self.is_(st, a, b)
            if r is None:
                return self.opaque_bool(st, "is", a, b)
            return num(r == (op == "Is"))
        if op in ("In", "NotIn"):
            r = self.contains(st, a, b)
            if isinstance(r, bool):
                return num(r == (op == "In"))
            if op == "NotIn" and isinstance(r, Num):
                return self.lognot(st, r)
            return r
        # strings, None, dtypes
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Dt) and op in ("Eq", "NotEq"):
                l = self.dtype_letter(y, st)
                if l is None:
                    return self.opaque_bool(st, "dtype", a, b)
                return num((l == x.letter) == (op == "Eq"))
        if isinstance(a, Known) and isinstance(b, Known):
            try:
                v = {"Eq": lambda: a.v == b.v, "NotEq": lambda: a.v != b.v, "Lt": lambda: a.v < b.v, "LtE": lambda: a.v <= b.v,
                     "Gt": lambda: a.v > b.v, "GtE": lambda: a.v >= b.v}[op]()
            except TypeError:
                I.raise_("TypeError", "unorderable")
            r = num(bool(v))
            return r if not (a.deps | b.deps) else Num("b", r.info.rep(deps=a.deps | b.deps), r.val)
        if isinstance(a, Ref) and isinstance(b, Ref) and (a.kind in ("set", "dictview") or b.kind in ("set", "dictview")):
            return self.setcmp(st, op, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.kind in ("list", "tuple"):
            return self.seqcmp(st, op, a, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.opaque_bool(st, "cmp", a, b)
        if isinstance(a, Known) and a.v is None or isinstance(b, Known) and b.v is None:
            other = b if isinstance(a, Known) and a.v is None else a
            if op in ("Eq", "NotEq"):
                if isinstance(other, Arr):
                    return self.ew(st, lambda p: tm.PZERO if op == "Eq" else tm.PONE, [other], "b", ((0.0, 1.0),))
                return num(op == "NotEq")
            I.raise_("TypeError", "'<' not supported between None and value")
        isstr = lambda v: isinstance(v, Known) and isinstance(v.v, str)
        for x, y in ((a, b), (b, a)):
            if isstr(x) and isinstance(y, (Num, Arr)) and y.dt in "bifcM m":
                if op in ("Eq", "NotEq"):
                    if isinstance(y, Num):
                        d = y.info.deps
                        r = num(op == "NotEq")
                        return r
                    return num(op == "NotEq")
                I.raise_("TypeError", "unorderable types")
            if isstr(x) and isinstance(y, (Ref, Func, Ext, Cls, Mod, Exc)):
                if op in ("Eq", "NotEq"):
                    return num(op == "NotEq")
                I.raise_("TypeError", "unorderable types")
        a2, b2 = self.to_array(st, a) if isinstance(a, (Known, Ref, Iter)) else a, self.to_array(st, b) if isinstance(b, (Known, Ref, Iter)) else b
        if isinstance(a2, Unknown) or isinstance(b2, Unknown) or not self.isnum(a2) or not self.isnum(b2):
            if op in ("Eq", "NotEq") and not isinstance(a2, Unknown) and not isinstance(b2, Unknown):
                if isinstance(a, (Func, Ext, Cls, Mod)) and isinstance(b, (Func, Ext, Cls, Mod)):
                    same = a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path)
                    return num(same == (op == "Eq"))
            return self.opaque_bool(st, "cmp", a, b)
        if a2.dt == "U" and b2.dt == "U" and isinstance(a2, Num) and isinstance(b2, Num) and a2.val is not NOVAL and b2.val is not NOVAL:
            return self.compare(st, op, Known(a2.val), Known(b2.val))
        if ("U" in (a2.dt, b2.dt)) and a2.dt != b2.dt and "O" not in (a2.dt, b2.dt):
            if op in ("Eq", "NotEq"):
                return num(op == "NotEq") if isinstance(a2, Num) and isinstance(b2, Num) else self.ew(
                    st, lambda p, q: tm.PZERO if op == "Eq" else tm.PONE, [a2, b2], "b", ((0.0, 1.0),))
            if "M" not in (a2.dt, b2.dt):
                I.raise_("TypeError", "unorderable types")
        o = self.OPS[op]

        def f(p, q):
            return self.bool_term(o, tm.sub(p, q))

        def re(x, y):
            if x.im == ((0.0, 0.0),) and y.im == ((0.0, 0.0),) and x.re is not None and y.re is not None and x.re and y.re:
                (al, ah), (bl, bh) = iv_bounds(x.re), iv_bounds(y.re)
                if o == "lt":
                    return iv_const(1) if ah < bl else iv_const(0) if al >= bh else ((0.0, 1.0),)
                if o == "le":
                    return iv_const(1) if ah <= bl else iv_const(0) if al > bh else ((0.0, 1.0),)
                if o == "gt":
                    return iv_const(1) if al > bh else iv_const(0) if ah <= bl else ((0.0, 1.0),)
                if o == "ge":
                    return iv_const(1) if al >= bh else iv_const(0) if ah < bl else ((0.0, 1.0),)
                disj = iv_disjoint(x.re, y.re)
                if disj:
                    return iv_const(0 if o == "eq" else 1)
            return ((0.0, 1.0),)

        def deg(x, y):
            d = deg_add(x.deg, y.deg, self.why("comparison of quantities that scale differently"))
            return d if isinstance(d, Bad) else (None if d is None else 0)

        r = self.ew(st, f, [a2, b2], "b", re, None, deg, name="compare")
        if isinstance(r, Num) and r.val is NOVAL and r.info.re in (((0.0, 0.0),), ((1.0, 1.0),)):
            v = r.info.re[0][0] == 1.0
            r = Num("b", r.info.rep(term=tm.T(tm.pconst(int(v)))), v)
        return r

    def opaque_bool(self, st, name, *vals):
        d = NONE
        for v in vals:
            d |= self.I.deps(st, v)
        key = tuple(self.ident(st, v) for v in vals)
        if name == "in" and isinstance(key[-1], tuple) and key[-1] and key[-1][0] in ("list", "tuple", "set"):
            # membership does not depend on the order or kind of the collection
            key = key[:-1] + (("members",) + tuple(sorted(set(key[-1][1:]), key=repr)),)
        p = tm.opaque(name + "?", key, nonneg=True, integer=True)
        return Num("b", Info(tm.T(p), d, ((0.0, 1.0),)))

    def ident(self, st, v):
        if isinstance(v, (Num, Arr)):
            return self.I.info(st, v).term
        if isinstance(v, Known):
            return repr(v.v)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ListCell):
                return (v.kind,) + tuple((it[0], it[1] if it[0] != "v" else None, self.ident(st, it[-1])) for it in c.items)
            return (v.kind,)
        if isinstance(v, Ext):
            return v.path
        return type(v).__name__

    def is_(self, st, a, b):
        if a is b:
            return True
        if isinstance(a, Known) and isinstance(b, Known):
            if a.v is None or b.v is None or isinstance(a.v, bool) or isinstance(b.v, bool):
                return a.v is b.v
            return True if type(a.v) is type(b.v) and a.v == b.v else False
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Known) and x.v is None:
                return False if not isinstance(y, (Unknown, Choice)) else None
            if isinstance(x, Known):
                return False if not (isinstance(y, Num) and y.dt == "U") else None
        if isinstance(a, Num) and isinstance(b, Num):
            if a.dt == "b" and b.dt == "b" and a.val is not NOVAL and b.val is not NOVAL:
                return a.val == b.val
            if {a.dt, b.dt} & {"b"} and a.dt != b.dt:
                return False
            if a.val is not NOVAL and b.val is not NOVAL and a.val != b.val:
                return False
            return None
        if isinstance(a, (Ref, Arr)) and isinstance(b, (Ref, Arr)):
            return a.oid == b.oid
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if type(a) is not type(b):
            return False
        return None


def iv_disjoint(a, b):
    return all(x[1] < y[0] or y[1] < x[0] for x in a for y in b)
