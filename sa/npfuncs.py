"""numpy / scipy functions: elementwise, creation, shape, stacking."""

import math
from fractions import Fraction

from . import terms as tm
from .vals import *
from .vals import NONE
from .npcore import Dt, UNIT_MS, djoin, parse_date_ms

F = {}


def fun(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f

    return deco


UNIT01 = ((-1.0, 1.0),)
BOOL01 = ((0.0, 1.0),)
RZ = ((0.0, 0.0),)


def isreal(i):
    return i.im == RZ


def itrunc(p):
    c = p.rconst()
    if c is not None:
        return tm.pconst(int(c))
    if all(a.integer and e > 0 and isinstance(e, int) for m in p.m for (x, e) in m for a in [tm.Atom.byid[x]]) and all(
            c[0].denominator == 1 for c in p.m.values()):
        return p
    return tm.patom(tm.atom("fn", ("trunc", p), (), real=True, integer=True))


def irint(p):
    c = p.rconst()
    if c is not None:
        return tm.pconst(round(c))
    if itrunc(p) is p:
        return p
    return tm.patom(tm.atom("fn", ("rint", p), (), real=True, integer=True))


def ifloor(p):
    if itrunc(p) is p:
        return p
    return tm.floor_atom(p)


class Funcs:
    # ------------------------------------------------------------ dtypes
    LET = {"float": "f", "float64": "f", "float32": "f", "double": "f", "float_": "f", "float16": "f", "longdouble": "f", "f8": "f", "f4": "f", "f": "f", "d": "f",
           "complex": "c", "complex128": "c", "complex64": "c", "cdouble": "c", "complex_": "c", "c16": "c", "c": "c", "D": "c",
           "int": "i", "int64": "i", "int32": "i", "int_": "i", "intp": "i", "int16": "i", "int8": "i", "uint8": "i", "uint16": "i", "uint32": "i", "uint64": "i", "i8": "i", "i4": "i", "i": "i",
           "bool": "b", "bool_": "b", "?": "b", "object": "O", "object_": "O", "O": "O", "str": "U", "str_": "U", "U": "U",
           "datetime64": "M", "timedelta64": "m", "M8": "M", "m8": "m"}

    def dtype_of(self, v, st):
        """(letter, unit) of a dtype specification, or None."""
        if v is None or (isinstance(v, Known) and v.v is None):
            return None
        if isinstance(v, Dt):
            return v.letter, v.unit
        if isinstance(v, Ext):
            l = self.LET.get(v.path.split(".")[-1])
            return (l, None) if l else None
        if isinstance(v, Known) and isinstance(v.v, str):
            s = v.v.lstrip("<>=|")
            unit = None
            if "[" in s:
                s, unit = s[:-1].split("[")
            l = self.LET.get(s)
            return (l, unit) if l else None
        return None

    def dtype_letter(self, v, st):
        r = self.dtype_of(v, st)
        return r[0] if r else None

    # ----------------------------------------------------------- helpers
    def A(self, st, v):
        return v if isinstance(v, (Num, Arr, Unknown)) else self.to_array(st, v)

    def kw(self, kwargs, name, default=None):
        v = kwargs.get(name)
        if v is None or (isinstance(v, Known) and v.v is None):
            return default
        return v

    def known(self, v, default=None):
        if v is None:
            return default
        if isinstance(v, Known):
            return v.v
        if isinstance(v, Num) and v.val is not NOVAL:
            return v.val
        return default

    def ismapped(self, st, v, f):
        """Apply f over the alternatives of a Choice."""
        v = self.I.pick(v, st)
        if isinstance(v, Choice):
            return self.I.over_choice(f, [v], st)
        return f(v)

    def un(self, st, v, f, dt=None, re=None, im=None, deg=0, name="f", unit=None, ok=None):
        v = self.A(st, v)
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.un(st, x, f, dt, re, im, deg, name, unit, ok), [v], st)
        if isinstance(v, Unknown) or not self.isnum(v):
            return self.unk(name, st, v)
        if v.dt == "U":
            self.I.raise_("TypeError", f"ufunc '{name}' not supported for strings")
        return self.ew(st, f, [v], dt if dt is not None else v.dt, re, im, deg, name=name, unit=unit, ok=ok)

    # ------------------------------------------------------- elementwise
    def scalefree(self, name, f, dt, iv, ivim=None):
        def g(st, a, **k):
            a = self.A(st, a)
            if isinstance(a, Num) or isinstance(a, Arr):
                d = dt(a.dt)
                r = self.un(st, a, f, d, lambda x: iv(x) if isreal(x) else None,
                            lambda x: RZ if isreal(x) else None,
                            lambda x: self.deg0(x.deg, name), name=name)
                return self.outarg(st, r, k)
            return self.unk(name, st, a)

        return g

    def outarg(self, st, r, kw):
        o = self.kw(kw, "out")
        if isinstance(o, Ref) and o.kind == "tuple":
            o = st.heap[o.oid].items[0][-1]
        wh = self.kw(kw, "where")
        if wh is not None and not (isinstance(wh, Num) and wh.val is True):
            r2 = self.unk("ufunc where=", st, r)
            if isinstance(o, Arr):
                self.arr_setitem(st, o, Slice(None, None, None), r2)
                return o
            return r2
        if isinstance(o, Arr):
            self.arr_setitem(st, o, Slice(None, None, None), r)
            return o
        return r

    def setup_elementwise(self):
        ff = lambda d: djoin(d, "f")
        S = self.scalefree
        T = self.table
        T["sin"] = S("sin", tm.sin, ff, lambda x: iv_sin(x.re))
        T["cos"] = S("cos", tm.cos, ff, lambda x: iv_sin(iv_add(x.re, iv_const(math.pi / 2))) if x.re is not None else UNIT01)
        T["tan"] = S("tan", lambda p: tm.div(tm.sin(p), tm.cos(p)), ff, lambda x: None)
        T["exp"] = self.f_exp
        T["expm1"] = S("expm1", lambda p: tm.sub(tm.exp(p), tm.PONE), ff, lambda x: ((-1.0, INF),))
        T["log"] = S("log", lambda p: tm.fn("log", p, real=p.all_real()), ff, lambda x: None)
        T["log10"] = S("log10", lambda p: tm.mul(tm.fn("log", p, real=p.all_real()), tm.power(tm.fn("log", tm.pconst(10)), -1)), ff, lambda x: None)
        T["log2"] = S("log2", lambda p: tm.mul(tm.fn("log", p, real=p.all_real()), tm.power(tm.fn("log", tm.pconst(2)), -1)), ff, lambda x: None)
        T["log1p"] = S("log1p", lambda p: tm.fn("log", tm.add(tm.PONE, p), real=p.all_real()), ff, lambda x: None)
        T["tanh"] = S("tanh", lambda p: tm.fn("tanh", p), ff, lambda x: iv_mono(math.tanh, x.re) or UNIT01)
        T["sinh"] = S("sinh", lambda p: tm.scale(tm.sub(tm.exp(p), tm.exp(tm.neg(p))), (Fraction(1, 2), Fraction(0))), ff, lambda x: None)
        T["cosh"] = S("cosh", lambda p: tm.scale(tm.add(tm.exp(p), tm.exp(tm.neg(p))), (Fraction(1, 2), Fraction(0))), ff, lambda x: ((1.0, INF),))
        T["arctan"] = S("arctan", lambda p: tm.fn("arctan", p), ff, lambda x: ((-math.pi / 2, math.pi / 2),))
        T["arcsin"] = S("arcsin", lambda p: tm.fn("arcsin", p), ff, lambda x: ((-math.pi / 2, math.pi / 2),))
        T["arccos"] = S("arccos", lambda p: tm.fn("arccos", p), ff, lambda x: ((0.0, math.pi),))
        T["sinc"] = S("sinc", lambda p: tm.fn("sinc", p), ff, lambda x: UNIT01)
        for nm, key in (("floor", ifloor), ("trunc", itrunc), ("fix", itrunc), ("rint", irint)):
            T[nm] = self.rounding(nm, key)
        T["round"] = T["around"] = self.f_round
        T["ceil"] = self.rounding("ceil", lambda p: tm.neg(ifloor(tm.neg(p))))

        def ck(f):
            return tm.scale(tm.PI, (Fraction(f), Fraction(0)))

        d2r = tm.scale(tm.PI, (Fraction(1, 180), Fraction(0)))
        r2d = tm.scale(tm.power(tm.PI, -1), (Fraction(180), Fraction(0)))
        for nm, c, k in (("deg2rad", d2r, math.pi / 180), ("radians", d2r, math.pi / 180), ("rad2deg", r2d, 180 / math.pi), ("degrees", r2d, 180 / math.pi)):
            T[nm] = lambda st, a, c=c, k=k, **kw: self.outarg(st, self.un(st, a, lambda p: tm.mul(p, c), "f", lambda x: iv_mul(x.re, iv_const(k)), None, lambda x: x.deg), kw)

    def f_round(self, st, a, decimals=None, **kw):
        n = 0 if decimals is None else self.known(decimals, None)
        if n == 0:
            return self.table["rint"](st, a, **kw)
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("round", st, a)
        return self.outarg(st, self.un(st, a, lambda p: tm.fn("round", p, tm.pconst(n) if isinstance(n, int) else tm.opaque("unk", ("decimals",))), a.dt, lambda x: None, None, lambda x: self.deg0(x.deg, "round"), name="round"), kw)

    def f_exp(self, st, a, **kw):
        def re(x):
            if isreal(x):
                return iv_mono(lambda z: 0.0 if z == -INF else INF if z > 700 else math.exp(z), x.re) or ((0.0, INF),)
            if x.re == RZ:
                return UNIT01
            return None

        def im(x):
            return RZ if isreal(x) else (UNIT01 if x.re == RZ else None)

        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("exp", st, a)
        return self.outarg(st, self.un(st, a, tm.exp, djoin(getattr(a, "dt", "f"), "f"), re, im, lambda x: self.deg0(x.deg, "exp"), name="exp"), kw)

    def rounding(self, name, f):
        def g(st, a, *rest, **kw):
            a = self.A(st, a)
            if isinstance(a, Unknown):
                return self.unk(name, st, a)
            if rest and not (isinstance(rest[0], Num) and rest[0].val == 0):
                return self.unk(name, st, a)

            def iv(x):
                if x.re is None or not x.re:
                    return x.re
                lo, hi = iv_bounds(x.re)
                return ((lo if lo == -INF else math.floor(lo), hi if hi == INF else math.ceil(hi)),)

            return self.outarg(st, self.un(st, a, f, a.dt if a.dt != "b" else "f", iv, None, lambda x: self.deg0(x.deg, name), name=name), kw)

        return g

    @fun("abs", "absolute", "fabs")
    def f_abs(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("abs", st, a)
        dt = "f" if a.dt == "c" else "i" if a.dt == "b" else a.dt

        def re(x):
            if isreal(x):
                return iv_abs(x.re)
            if x.re and x.im and (not iv_has0(x.re) or not iv_has0(x.im)):
                return ((1e-300, INF),)
            return ((0.0, INF),)

        return self.outarg(st, self.un(st, a, tm.absval, dt, re, None, lambda x: x.deg, "abs", unit=getattr(a, "unit", None)), kw)

    @fun("sqrt")
    def f_sqrt(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("sqrt", st, a)

        def deg(x):
            if x.deg is None or x.deg is ANY or isinstance(x.deg, Bad):
                return x.deg
            d = Fraction(x.deg) / 2
            return int(d) if d.denominator == 1 else d

        def re(x):
            if isreal(x):
                return iv_mono(lambda z: INF if z == INF else math.sqrt(max(z, 0.0)), x.re, (0.0, INF)) if x.re is not None else ((0.0, INF),)
            return ((0.0, INF),)

        return self.outarg(st, self.un(st, a, tm.sqrt, djoin(a.dt, "f"), re, lambda x: RZ if isreal(x) else None, deg, "sqrt"), kw)

    @fun("square")
    def f_square(self, st, a, **kw):
        return self.outarg(st, self.binop(st, "Pow", self.A(st, a), num(2)), kw)

    @fun("reciprocal")
    def f_recip(self, st, a, **kw):
        return self.outarg(st, self.binop(st, "Div", num(1.0), self.A(st, a)), kw)

    @fun("negative")
    def f_neg(self, st, a, **kw):
        return self.outarg(st, self.unary(st, "USub", a), kw)

    @fun("positive")
    def f_pos(self, st, a, **kw):
        return self.A(st, a)

    @fun("logical_not", "invert", "bitwise_not")
    def f_lnot(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("not", st, a)
        if a.dt != "b":
            a = self.compare(st, "NotEq", a, num(0))
        return self.outarg(st, self.lognot(st, a), kw)

    @fun("sign")
    def f_sign(self, st, a, **kw):
        def deg(x):
            return x.deg if isinstance(x.deg, Bad) or x.deg is None else 0

        def f(p):
            c = p.rconst()
            if c is not None:
                return tm.pconst((c > 0) - (c < 0))
            return tm.fn("sign", p)

        return self.un(st, a, f, None, lambda x: UNIT01, None, deg, "sign")

    @fun("conj", "conjugate")
    def f_conj(self, st, a, **kw):
        return self.outarg(st, self.un(st, a, tm.conj, None, lambda x: x.re, lambda x: iv_neg(x.im), lambda x: x.deg, "conj"), kw)

    def relabel(self, st, a, r, lab):
        """Real / imaginary parts of the data carry the component label."""
        if isinstance(r, (Num, Arr)) and isinstance(a, (Num, Arr)) and a.dt == "c":
            i = self.I.info(st, r)
            d = i.deps | {"part:" + lab}
            if isinstance(r, Num):
                return Num(r.dt, i.rep(deps=d), r.val, r.lenof, r.unit)
            r.init = i.rep(deps=d)
            st.heap.pop(r.oid, None)
        return r

    @fun("real")
    def f_real(self, st, a, **kw):
        a = self.A(st, a)
        r = self.un(st, a, tm.real, "f" if getattr(a, "dt", "f") == "c" else None, lambda x: x.re, None, lambda x: x.deg, "real")
        return self.relabel(st, a, r, "re")

    @fun("imag")
    def f_imag(self, st, a, **kw):
        a = self.A(st, a)
        r = self.un(st, a, tm.imag, "f" if getattr(a, "dt", "f") == "c" else None, lambda x: x.im, None, lambda x: x.deg, "imag")
        return self.relabel(st, a, r, "im")

    @fun("angle")
    def f_angle(self, st, a, deg=None, **kw):
        d = self.known(deg, False)
        c = tm.scale(tm.power(tm.PI, -1), (Fraction(180), Fraction(0))) if d else tm.PONE
        b = 180.0 if d else math.pi

        def dg(x):
            return x.deg if isinstance(x.deg, Bad) or x.deg is None else 0

        return self.un(st, a, lambda p: tm.mul(tm.angle(p), c), "f", lambda x: ((-b, b),), None, dg, "angle")

    def tokens_of(self, i, kinds):
        return frozenset(t for t in (i.inv | i.mk) if t[1] in kinds)

    @fun("isnan", "isnat")
    def f_isnan(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("isnan", st, a)
        return self.nonfinite(st, a, ("nan",), "isnan")

    @fun("isinf")
    def f_isinf(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("isinf", st, a)
        return self.nonfinite(st, a, ("inf",), "isinf")

    @fun("isfinite")
    def f_isfinite(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("isfinite", st, a)
        if isinstance(a, Num) and a.val is not NOVAL and a.dt in "bif":
            return num(math.isfinite(a.val))
        r = self.nonfinite(st, a, ("nan", "inf"), "isnan")
        return self.lognot(st, r)

    def nonfinite(self, st, a, kinds, name):
        if a.dt in "U":
            self.I.raise_("TypeError", f"ufunc '{name}' not supported for the input types")
        if isinstance(a, Num) and a.val is not NOVAL and a.dt in "bif":
            return num(math.isnan(a.val) if "nan" in kinds and len(kinds) == 1 else math.isinf(a.val) if len(kinds) == 1 else not math.isfinite(a.val))
        i = self.I.info(st, a)
        toks = frozenset(t for t in i.inv if t[1] in kinds)
        other = frozenset(t for t in i.inv if t[1] not in kinds)
        key = tuple(sorted(kinds))

        def f(p):
            c = p.const()
            if c is not None:
                return tm.PZERO
            return tm.opaque("isbad", (key, p), tuple(sorted(p.axes(), key=tm.ordk)), nonneg=True, integer=True)

        return self.ew(st, f, [a], "b", BOOL01, None, 0, ("bad", toks) if toks else (("bad", NONE) if not i.inv else None), name=name)

    @fun("isreal")
    def f_isreal(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("isreal", st, a)
        if a.dt != "c":
            return self.ew(st, lambda p: tm.PONE, [a], "b", iv_const(1))
        return self.ew(st, lambda p: self.bool_term("eq", tm.imag(p)), [a], "b", BOOL01)

    @fun("iscomplex")
    def f_iscomplex(self, st, a, **kw):
        return self.lognot(st, self.f_isreal(st, a))

    @fun("spacing")
    def f_spacing(self, st, a, **kw):
        a = self.A(st, a)
        if isinstance(a, Num) and a.val is not NOVAL:
            return num(float(math.ulp(float(a.val))))
        return self.un(st, a, lambda p: tm.fn("spacing", p), "f", lambda x: ((0.0, INF),), None, lambda x: x.deg, "spacing")

    @fun("nan_to_num")
    def f_nan_to_num(self, st, a, *r, **kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("nan_to_num", st, a)
        i = self.I.info(st, a)
        r = self.un(st, a, lambda p: tm.opaque("nan_to_num", (p,), tuple(sorted(p.axes(), key=tm.ordk))), None, lambda x: x.re, lambda x: x.im, lambda x: x.deg, "nan_to_num")
        return r

    @fun("nextafter", "ldexp", "heaviside", "float_power", "logaddexp")
    def f_op2(self, st, a, b, **kw):
        return self.unk("ufunc", st, a, b)

    # ----------------------------------------------------------- binary
    def setup_binary(self):
        for n, op in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow"),
                      ("mod", "Mod"), ("remainder", "Mod"), ("floor_divide", "FloorDiv"), ("bitwise_and", "BitAnd"), ("bitwise_or", "BitOr"), ("bitwise_xor", "BitXor")):
            self.table[n] = lambda st, a, b, *r, op=op, **kw: self.outarg(st, self.binop(st, op, self.A(st, a), self.A(st, b)), self.posout(r, kw))
        for n, op in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"), ("not_equal", "NotEq")):
            self.table[n] = lambda st, a, b, *r, op=op, **kw: self.outarg(st, self.compare(st, op, self.A(st, a), self.A(st, b)), self.posout(r, kw))
        for n, op in (("logical_and", "BitAnd"), ("logical_or", "BitOr"), ("logical_xor", "BitXor")):
            self.table[n] = lambda st, a, b, *r, op=op, **kw: self.outarg(st, self.logical(st, op, a, b), self.posout(r, kw))

    def posout(self, r, kw):
        if r:
            kw = dict(kw)
            kw["out"] = r[0]
        return kw

    def tobool(self, st, a):
        a = self.A(st, a)
        if isinstance(a, (Num, Arr)) and a.dt != "b":
            return self.compare(st, "NotEq", a, num(0))
        return a

    def logical(self, st, op, a, b):
        a, b = self.tobool(st, a), self.tobool(st, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.unk("logical", st, a, b)
        return self.boolop(st, op, a, b)

    @fun("fmod")
    def f_fmod(self, st, a, b, *rest, **kw):
        a, b = self.A(st, a), self.A(st, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.outarg(st, self.unk("fmod", st, a, b), self.posout(rest, kw))

        def re(x, y):
            if y.re and len(y.re) == 1:
                q = max(abs(y.re[0][0]), abs(y.re[0][1]))
                if x.re and iv_subset(x.re, -q, q, 0):
                    return x.re
                lo = 0.0 if x.re and x.re[0][0] >= 0 else -q
                return ((lo, q),)
            return None

        r = self.ew(st, lambda p, q: tm.sub(p, tm.mul(q, itrunc(tm.div(p, q)))), [a, b], djoin(a.dt, b.dt), re, None,
                    lambda x, y: deg_add(x.deg, y.deg, self.why("fmod")), name="fmod")
        return self.outarg(st, r, self.posout(rest, kw))

    def minmax2(self, name):
        fnm = "max" if name in ("maximum", "fmax") else "min"

        def f(p, q):
            cp, cq = p.rconst(), q.rconst()
            if cp is not None and cq is not None:
                return tm.pconst(max(cp, cq) if fnm == "max" else min(cp, cq))
            if p == q:
                return p
            if fnm == "max":
                for x, y in ((p, q), (q, p)):
                    a = self.single_atom(x)
                    if a is not None and a.nonneg and y.rconst() is not None and y.rconst() <= 0:
                        return x
            x, y = sorted((p, q), key=tm._ord)
            return tm.fn(fnm, x, y)

        def re(x, y):
            a = x.re if x.re is not None else TOP
            b = y.re if y.re is not None else TOP
            if not a:
                return b
            if not b:
                return a
            (al, ah), (bl, bh) = iv_bounds(a), iv_bounds(b)
            return ((max(al, bl), max(ah, bh)),) if fnm == "max" else ((min(al, bl), min(ah, bh)),)

        def g(st, a, b, *rest, **kw):
            a, b = self.A(st, a), self.A(st, b)
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return self.unk(name, st, a, b)
            return self.outarg(st, self.ew(st, f, [a, b], djoin(a.dt, b.dt), re, None, lambda x, y: deg_add(x.deg, y.deg, self.why(name)), name=name), self.posout(rest, kw))

        return g

    @fun("arctan2")
    def f_arctan2(self, st, a, b, **kw):
        def deg(x, y):
            d = deg_add(x.deg, y.deg, self.why("arctan2"))
            return d if isinstance(d, Bad) or d is None else 0

        a, b = self.A(st, a), self.A(st, b)
        return self.ew(st, lambda y, x: tm.angle(tm.add(x, tm.mul(tm.pconst(0, 1), y))), [a, b], "f", lambda x, y: ((-math.pi, math.pi),), None, deg, name="arctan2")

    @fun("hypot")
    def f_hypot(self, st, a, b, **kw):
        a, b = self.A(st, a), self.A(st, b)
        return self.ew(st, lambda x, y: tm.sqrt(tm.add(tm.mul(x, x), tm.mul(y, y))), [a, b], "f", lambda x, y: ((0.0, INF),), None,
                       lambda x, y: deg_add(x.deg, y.deg, self.why("hypot")), name="hypot")

    @fun("copysign")
    def f_copysign(self, st, a, b, **kw):
        a, b = self.A(st, a), self.A(st, b)

        def re(x, y):
            m = iv_abs(x.re)
            if y.re and y.re[0][0] > 0:
                return m
            if y.re and y.re[-1][1] < 0:
                return iv_neg(m)
            return iv_join(m, iv_neg(m))

        def f(x, y):
            c, d = x.rconst(), y.rconst()
            if c is not None and d is not None:
                return tm.pconst(abs(c) if d >= 0 else -abs(c))
            return tm.mul(tm.absval(x), tm.fn("copysign", tm.PONE, y))

        return self.ew(st, f, [a, b], "f", re, None, lambda x, y: x.deg, name="copysign")

    @fun("clip")
    def f_clip(self, st, a, lo=None, hi=None, *rest, **kw):
        lo = self.kw(kw, "a_min", lo) or self.kw(kw, "min")
        hi = self.kw(kw, "a_max", hi) or self.kw(kw, "max")
        r = self.A(st, a)
        if lo is not None and not (isinstance(lo, Known) and lo.v is None):
            r = self.table["maximum"](st, r, lo)
        if hi is not None and not (isinstance(hi, Known) and hi.v is None):
            r = self.table["minimum"](st, r, hi)
        return self.outarg(st, r, self.posout(rest, kw))

    @fun("where")
    def f_where(self, st, c, *xy, **kw):
        c = self.A(st, c)
        if not xy:
            r = self.f_nonzero(st, c)
            return r
        x, y = self.A(st, xy[0]), self.A(st, xy[1])
        if any(isinstance(v, Unknown) for v in (c, x, y)):
            return self.unk("where", st, c, x, y)
        c = self.tobool(st, c)
        ci = self.I.info(st, c)
        if isinstance(c, Num) and c.val is not NOVAL:
            pass

        def f(p, a, b):
            k = p.rconst()
            if k is not None:
                return a if k else b
            if a == b:
                return a
            if len(p.m) > 1 and len(tm.sub(tm.PONE, p).m) == 1:
                p, a, b = tm.sub(tm.PONE, p), b, a
            return tm.add(b, tm.mul(p, tm.sub(a, b)))

        def deg(p, a, b):
            if isinstance(p.deg, Bad):
                return p.deg
            return deg_add(a.deg, b.deg, self.why("where"))

        r = self.ew(st, f, [c, x, y], djoin(x.dt, y.dt), lambda p, a, b: iv_join(a.re, b.re), lambda p, a, b: iv_join(a.im, b.im), deg, name="where",
                    unit=getattr(x, "unit", None) or getattr(y, "unit", None))
        if isinstance(r, (Arr, Num)) and ci.ok:
            i = self.I.info(st, r)
            xi, yi = self.I.info(st, x), self.I.info(st, y)
            good = ci.ok[0] == "good"
            inv = ((xi.inv - ci.ok[1]) | yi.inv) if good else (xi.inv | (yi.inv - ci.ok[1]))
            if isinstance(r, Num):
                return Num(r.dt, i.rep(inv=inv), r.val, None, r.unit)
            st.heap[r.oid] = i.rep(inv=inv)
        return r

    @fun("isclose")
    def f_isclose(self, st, a, b, *r, **kw):
        a, b = self.A(st, a), self.A(st, b)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return self.unk("isclose", st, a, b)
        atol = self.kw(kw, "atol") or (r[1] if len(r) > 1 else None)
        zero = atol is not None and isinstance(atol, Num) and atol.val == 0

        def deg(x, y):
            d = deg_add(x.deg, y.deg, self.why("isclose"))
            if isinstance(d, Bad) or d is None or d is ANY or d == 0 or zero:
                return d if isinstance(d, Bad) else 0
            return Bad(f"isclose with an absolute tolerance at {self.I.where()}")

        return self.ew(st, lambda p, q: tm.opaque("isclose", (p, q), tuple(sorted(p.axes() | q.axes(), key=tm.ordk)), nonneg=True, integer=True), [a, b], "b", BOOL01, None, deg)

    @fun("allclose")
    def f_allclose(self, st, a, b, *r, **kw):
        x = self.f_isclose(st, a, b, *r, **kw)
        return self.f_all(st, x)

    # ---------------------------------------------------------- creation
    def shape_axes(self, st, shape):
        """Axes for a shape argument (int or tuple)."""
        if isinstance(shape, Ref):
            c = st.heap.get(shape.oid)
            if not isinstance(c, ListCell):
                return None
            out = []
            for it in c.items:
                if it[0] != "v":
                    return None
                a = self.len_axis(st, it[1])
                if a is None:
                    return None
                while a != tm.ONEAX and a in out:
                    a = self.fresh_tag(a, out)
                out.append(a)
            return out
        a = self.len_axis(st, shape)
        return None if a is None else [a]

    def len_axis(self, st, n):
        n = self.I.pick(n, st)
        if not isinstance(n, Num) or n.dt not in "bi":
            if isinstance(n, Num) and n.dt in "fU" or isinstance(n, Known):
                self.I.raise_("TypeError", "an integer is required")
            return None
        if isinstance(n.lenof, tuple) and n.lenof and n.lenof[0] in ("one", "lit", "base", "cat", "sel", "flt", "perm", "pr", "anon", "fmap"):
            return n.lenof
        t = self.I.info(st, n).term
        p = t.single()
        if p is None:
            return ("anon", tm.opaque("phi", (t,), nonneg=True, integer=True), ("n",))
        c = p.rconst()
        if c is not None:
            if c < 0:
                self.I.raise_("ValueError", "negative dimensions are not allowed")
            return tm.litax(int(c)) if c else ("lit", 0)
        ax = self.axis_of_len(p)
        return ax if ax is not None else ("anon", p, ("n",))

    def axis_of_len(self, p):
        """Axis whose length is p, from its name: len(A), len(A)+len(B)..."""
        a = self.single_atom(p)
        if a is not None and a.key and a.key[0] == "len" and len(a.key) > 1:
            return a.key[1]
        return None

    def fill(self, st, axes, info, dt):
        return self.I.newarr(axes, dt, info, keep0=True)

    def dt_arg(self, st, args, kw, pos, default):
        v = args[pos] if len(args) > pos else kw.get("dtype")
        r = self.dtype_of(v, st) if v is not None else None
        return r[0] if r else default

    @fun("zeros")
    def f_zeros(self, st, shape, *a, **kw):
        return self.full(st, shape, Info(tm.T(tm.PZERO), NONE, RZ, deg=ANY), self.dt_arg(st, a, kw, 0, "f"))

    @fun("ones")
    def f_ones(self, st, shape, *a, **kw):
        return self.full(st, shape, Info(tm.T(tm.PONE), NONE, iv_const(1)), self.dt_arg(st, a, kw, 0, "f"))

    @fun("empty")
    def f_empty(self, st, shape, *a, **kw):
        return self.full(st, shape, self.uninit(), self.dt_arg(st, a, kw, 0, "f"))

    def uninit(self):
        return Info(tm.T(tm.opaque("uninit")), frozenset(["uninit"]), (), (), deg=ANY)

    @fun("full")
    def f_full(self, st, shape, v=None, *a, **kw):
        v = self.A(st, v if v is not None else kw["fill_value"])
        if isinstance(v, Unknown) or not isinstance(v, Num):
            return self.unk("full", st, v)
        return self.full(st, shape, v.info, self.dt_arg(st, a, kw, 0, v.dt))

    def full(self, st, shape, info, dt):
        axes = self.shape_axes(st, shape)
        if axes is None:
            return self.unk("shape", st, shape)
        d = self.I.deps(st, shape)
        return self.fill(st, axes, info.rep(deps=info.deps), dt)

    @fun("zeros_like")
    def f_zeros_like(self, st, a, *r, **kw):
        return self.like(st, a, Info(tm.T(tm.PZERO), NONE, RZ, deg=ANY), r, kw)

    @fun("ones_like")
    def f_ones_like(self, st, a, *r, **kw):
        return self.like(st, a, Info(tm.T(tm.PONE), NONE, iv_const(1)), r, kw)

    @fun("empty_like")
    def f_empty_like(self, st, a, *r, **kw):
        return self.like(st, a, self.uninit(), r, kw)

    @fun("full_like")
    def f_full_like(self, st, a, v=None, *r, **kw):
        v = self.A(st, v if v is not None else kw["fill_value"])
        if not isinstance(v, Num):
            return self.unk("full_like", st, v)
        return self.like(st, a, v.info, r, kw)

    def like(self, st, a, info, r, kw):
        a = self.A(st, a)
        if isinstance(a, Unknown):
            return self.unk("like", st, a)
        dt = self.dt_arg(st, r, kw, 0, a.dt)
        if isinstance(a, Num):
            return Num(dt, info)
        sh = self.kw(kw, "shape")
        if sh is not None:
            return self.full(st, sh, info, dt)
        return self.I.newarr(a.axes, dt, info, ma=a.ma)

    @fun("eye", "identity")
    def f_eye(self, st, n, *a, **kw):
        ax = self.len_axis(st, n)
        if ax is None or a or kw.get("k") is not None or kw.get("M") is not None:
            return self.unk("eye", st, n)
        return self.diag_from(st, [ax, tm.retag(ax, "r") if ax[0] not in ("one",) else ax], const_info(1.0), "f")

    def diag_from(self, st, axes, vi, dt):
        """Matrix with vi (over axes[0]) on the diagonal."""
        p, q = axes
        segs = tm.segments(p)
        if segs is not None and p[0] == "lit":
            alts = []
            parts = tm.seg_alts(vi.term, p)
            for i in range(len(segs)):
                for j in range(len(segs)):
                    g = frozenset([(("seg", p), i), (("seg", q), j)])
                    if i == j:
                        for g2, x in parts[i][1].alts:
                            alts.append((g | g2, x))
                    else:
                        alts.append((g, tm.PZERO))
            t = tm.mkterm(alts)
        else:
            d = tm.opaque("delta", (), (p, q), nonneg=True, integer=True)
            t = tm.tmap(lambda x: tm.mul(d, x), vi.term)
        return self.I.newarr([p, q], dt, vi.rep(term=t, re=iv_join(vi.re, RZ), im=iv_join(vi.im, RZ)))

    @fun("arange")
    def f_arange(self, st, *a, **kw):
        a = [self.I.pick(x, st) for x in a]
        if any(not isinstance(x, Num) for x in a):
            return self.unk("arange", st, *a)
        start, step = num(0), num(1)
        if len(a) == 1:
            stop = a[0]
        elif len(a) == 2:
            start, stop = a
        else:
            start, stop, step = a[:3]
        dt = self.dt_arg(st, a, kw, 3, djoin(*[x.dt for x in (start, stop, step)]))
        if dt == "b":
            dt = "i"
        if step.val == 1 and start.val == 0 and stop.dt in "bi":
            ax = self.len_axis(st, stop)
            return self.iota(st, ax, dt)
        ps = [self.I.info(st, x).term.single() for x in (start, stop, step)]
        deps = NONE
        for x in (start, stop, step):
            deps |= x.info.deps
        if any(p is None for p in ps):
            return self.unk("arange", st, *a)
        c = [p.rconst() for p in ps]
        if all(x is not None for x in c) and c[2] != 0:
            n = max(0, math.ceil((c[1] - c[0]) / c[2]))
            if n <= 64:
                return self.stack_items(st, [("v", num(int(c[0] + k * c[2])) if dt == "i" else num(float(c[0] + k * c[2]))) for k in range(n)], deps)
        if c[2] != 1:
            n = tm.opaque("arangelen", tuple(ps), nonneg=True, integer=True)
        else:
            n = tm.sub(ps[1], ps[0])
        if c[2] == 1 and n.rconst() is not None and n.rconst() <= 64 and dt == "i":
            return self.stack_items(st, [("v", self.binop(st, "Add", start, num(k))) for k in range(max(0, int(n.rconst())))], deps)
        ax = (self.axis_of_len(n) if c[2] == 1 else None) or ("anon", n, ("arange",))
        p = tm.add(ps[0], tm.mul(ps[2], tm.ixsym(ax)))
        lo = iv_bounds(start.info.re)[0]
        return self.I.newarr([ax], dt, Info(tm.T(p), deps, ((lo, INF),) if c[2] is not None and c[2] > 0 else None, deg=deg_join(0 if start.info.deg is ANY else start.info.deg, 0)))

    def iota(self, st, ax, dt="i"):
        if ax is None:
            return self.I.unknown("arange")
        if ax == tm.ONEAX:
            return self.I.newarr([ax], dt, const_info(0))
        if ax[0] == "lit":
            if ax[1] == 0:
                return self.I.newarr([ax], dt, Info(tm.T(tm.PZERO), NONE, ()))
            t = tm.mkterm([(frozenset([(("seg", ax), k)]), tm.pconst(k)) for k in range(ax[1])])
            return self.I.newarr([ax], dt, Info(t, NONE, ((0.0, float(ax[1] - 1)),)))
        return self.I.newarr([ax], dt, Info(tm.T(tm.ixsym(ax)), NONE, ((0.0, INF),)))

    @fun("linspace")
    def f_linspace(self, st, a, b, n=None, *r, **kw):
        n = n if n is not None else kw.get("num", num(50))
        a, b = self.A(st, a), self.A(st, b)
        ax = self.len_axis(st, n)
        if ax is None or not isinstance(a, Num) or not isinstance(b, Num):
            return self.unk("linspace", st, a, b, n)
        L = tm.axis_len(ax)

        def f(p, q):
            return tm.add(p, tm.mul(tm.sub(q, p), tm.div(tm.ixsym(ax), tm.sub(L, tm.PONE))))

        i = tm.tmap(f, self.I.info(st, a).term, self.I.info(st, b).term)
        x, y = self.I.info(st, a), self.I.info(st, b)
        return self.I.newarr([ax], "f", Info(i, x.deps | y.deps, iv_join(x.re, y.re), deg=deg_add(x.deg, y.deg, self.why("linspace")), inv=x.inv | y.inv))

    @fun("array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "copy", "require", "asfarray", "asarray_chkfinite")
    def f_array(self, st, a, *r, _name="array", **kw):
        src = a
        a = self.A(st, self.I.pick(a, st))
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.f_array(st, x, *r, _name=_name, **kw), [a], st)
        if isinstance(a, Unknown):
            return Unknown(a.why, a.deps, a.root)
        d = self.dtype_of(r[0] if r else kw.get("dtype"), st) if (r or kw.get("dtype") is not None) else None
        cp = self.known(kw.get("copy"), True)
        fresh = _name in ("array", "copy") and cp is not False
        if isinstance(a, Num):
            a = self.astype(st, a, d) if d else a
            nd = self.known(kw.get("ndmin"), 0)
            if nd and nd >= 1:
                return self.I.newarr([tm.ONEAX] * nd, a.dt, self.I.info(st, a), unit=a.unit)
            return a
        keepma = _name == "asanyarray" or (self.known(kw.get("subok"), False) is True)
        if d and d[0] != a.dt or (d and d[1] and d[1] != a.unit):
            b = self.astype(st, a, d)
            if isinstance(b, Arr) and not keepma:
                b = self.dropmask(st, b, fresh=True)
            return b
        if fresh:
            b = self.copy_arr(st, a)
            if not keepma and b.ma:
                b = self.dropmask(st, b, fresh=True)
            return b
        if a.ma and not keepma:
            return self.dropmask(st, a)
        return a

    def copy_arr(self, st, a):
        if isinstance(a, Num):
            return a
        return self.I.newarr(a.axes, a.dt, self.I.info(st, a), unit=a.unit, ma=a.ma)

    def dropmask(self, st, a, fresh=False):
        """Plain ndarray of a masked array: the data under the mask shows."""
        i = self.I.info(st, a)
        n = i.rep(inv=i.inv | i.mk, mk=NONE)
        if fresh:
            return self.I.newarr(a.axes, a.dt, n, unit=a.unit)
        return self.I.view(st, a, a.axes, n, ma=False)

    def astype(self, st, a, d):
        letter, unit = d
        if isinstance(a, Unknown):
            return a
        i = self.I.info(st, a)
        src = a.dt
        if letter == src and (unit is None or unit == a.unit):
            if isinstance(a, Num):
                return a
            return self.copy_arr(st, a)
        if src == "U" and letter in "bifc":
            if isinstance(a, Num) and isinstance(a.val, str):
                try:
                    return num({"f": float, "i": int, "c": complex, "b": bool}[letter](a.val))
                except ValueError:
                    self.I.raise_("ValueError", f"could not convert string to {letter}: {a.val!r}")
            return self.unk("astype of string", st, a)
        if src == "U" and letter == "M":
            if isinstance(a, Num) and isinstance(a.val, str):
                ms = parse_date_ms(a.val)
                if ms is None:
                    self.I.raise_("ValueError", f"Error parsing datetime string {a.val!r}")
                return Num("M", const_info(ms), NOVAL, unit=unit or "ms")
            self.I.mayraise(st, "ValueError", "datetime string")
            return self.unk("datetime string", st, a)
        u2 = unit or a.unit
        f = lambda p: p
        re, im, dt = (lambda x: x.re), (lambda x: x.im), letter
        inv = i.inv
        if letter == "M" and src in "M":
            f = self.to_unit(a.unit, unit)
        elif letter == "m" and src == "m":
            f = self.to_unit(a.unit, unit)
        elif letter in "Mm" and src in "bif":
            # numbers are counts of the target unit
            k = UNIT_MS.get(unit or "ms", Fraction(1))
            f = lambda p: tm.mul(itrunc(p), tm.pconst(k))
            u2 = unit or "ms"
            re = lambda x: None
        elif letter in "fi" and src in "mM":
            k = UNIT_MS.get(a.unit or "ms", Fraction(1))
            f = lambda p: tm.div(p, tm.pconst(k))
            re = lambda x: None
            # NaT turns into a large number that no later test recognises
            inv = frozenset(("garbage" if False else t[0], t[1]) for t in i.inv)
            inv = frozenset((t[0], "nat-lost" if t[1] == "nan" else t[1]) for t in i.inv)
            u2 = None
        elif letter == "i" and src == "f":
            f = itrunc
            if src == "f" and i.inv:
                pass
            g = self.deg0
            return self.ew(st, f, [a], "i", re, None, lambda x: self.deg0(x.deg, "conversion to integer"), name="astype")
        elif letter == "b":
            return self.compare(st, "NotEq", a, num(0))
        elif letter in "if" and src == "c":
            f = tm.real
            im = RZ
            self.I.event("complex-discard", term=i.term)
        elif letter in "MmUO" or src in "OU":
            if letter == "O":
                r = self.ew(st, lambda p: p, [a], "O", re, im, lambda x: x.deg, unit=a.unit)
                return r
            if src == "O" and letter == "M":
                # objects holding dates
                if isinstance(a, Arr) and a.unit == "date":
                    r = self.ew(st, self.to_unit("us", unit or "ms"), [a], "M", None, None, 0, unit=unit or "ms")
                    return self.keep_inv(st, r, i)
                self.I.mayraise(st, "ValueError", "object to datetime64")
                r = self.ew(st, lambda p: tm.fn("todate", p), [a], "M", None, None, 0, unit=unit or "ms")
                return r
            if src == "O" and letter in "bifc":
                return self.ew(st, f, [a], letter, re, im, lambda x: x.deg)
            return self.unk("astype", st, a)
        elif letter in "fc" and src in "bifc":
            pass
        elif letter == "i":
            pass
        else:
            return self.unk("astype", st, a)
        if isinstance(a, Num) and a.val is not NOVAL and letter in "if":
            try:
                return Num(letter, i, {"i": int, "f": float}[letter](a.val))
            except (TypeError, ValueError):
                pass
        r = self.ew(st, f, [a], letter, re, im, lambda x: x.deg, name="astype", unit=u2)
        if isinstance(r, Arr):
            ri = self.I.info(st, r)
            r.init = ri.rep(inv=inv, ok=i.ok if letter == "b" else None)
            st.heap.pop(r.oid, None)
        elif isinstance(r, Num):
            r = Num(r.dt, r.info.rep(inv=inv), r.val, None, r.unit)
        return r

    def keep_inv(self, st, r, i):
        return r

    def to_unit(self, src, dst):
        s, d = UNIT_MS.get(src or "ms", Fraction(1)), UNIT_MS.get(dst or src or "ms", Fraction(1))
        if d <= s:
            return lambda p: p
        k = tm.pconst(d)
        return lambda p: tm.mul(k, ifloor(tm.div(p, k)))

    # ------------------------------------------------------------- shape
    @fun("atleast_1d")
    def f_atleast_1d(self, st, *vs, **kw):
        out = []
        for v in vs:
            a = self.A(st, self.I.pick(v, st))
            if isinstance(a, Num):
                a = self.I.newarr([tm.ONEAX], a.dt, self.I.info(st, a), unit=a.unit)
            out.append(a)
        if len(out) == 1:
            return out[0]
        return self.mktuple(st, out)

    @fun("atleast_2d")
    def f_atleast_2d(self, st, v, **kw):
        a = self.A(st, v)
        if isinstance(a, Num):
            return self.I.newarr([tm.ONEAX, tm.ONEAX], a.dt, self.I.info(st, a), unit=a.unit)
        if isinstance(a, Arr) and len(a.axes) == 1:
            return self.I.view(st, a, [tm.ONEAX, a.axes[0]], self.I.info(st, a))
        return a

    def mktuple(self, st, vs, kind="tuple"):
        r = Ref(kind)
        st.heap[r.oid] = ListCell([("v", v) for v in vs])
        return r

    @fun("squeeze")
    def f_squeeze(self, st, a, *r, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr):
            return a
        return self.I.view(st, a, [x for x in a.axes if x != tm.ONEAX], self.I.info(st, a))

    @fun("transpose")
    def f_transpose(self, st, a, *r, **kw):
        a = self.A(st, a)
        if not isinstance(a, Arr):
            return a
        if r and not (isinstance(r[0], Known) and r[0].v is None):
            items = [self.known(x[1]) for x in st.heap[r[0].oid].items] if isinstance(r[0], Ref) else [self.known(x) for x in r]
            if any(k is None for k in items) or len(items) != len(a.axes):
                return self.unk("transpose", st, a)
            return self.I.view(st, a, [a.axes[k] for k in items], self.I.info(st, a))
        return self.I.view(st, a, a.axes[::-1], self.I.info(st, a))

    @fun("swapaxes")
    def f_swapaxes(self, st, a, i, j, **kw):
        a = self.A(st, a)
        i, j = self.known(i), self.known(j)
        if not isinstance(a, Arr) or i is None or j is None:
            return self.unk("swapaxes", st, a)
        ax = list(a.axes)
        ax[i], ax[j] = ax[j], ax[i]
        return self.I.view(st, a, ax, self.I.info(st, a))

    @fun("moveaxis")
    def f_moveaxis(self, st, a, i, j, **kw):
        a = self.A(st, a)
        i, j = self.known(i), self.known(j)
        if not isinstance(a, Arr) or i is None or j is None:
            return self.unk("moveaxis", st, a)
        ax = list(a.axes)
        x = ax.pop(i)
        ax.insert(j if j >= 0 else len(ax) + 1 + j, x)
        return self.I.view(st, a, ax, self.I.info(st, a))

    @fun("expand_dims")
    def f_expand_dims(self, st, a, axis, **kw):
        a = self.A(st, a)
        k = self.known(axis)
        if not isinstance(a, Arr) or k is None:
            return self.unk("expand_dims", st, a)
        ax = list(a.axes)
        ax.insert(k if k >= 0 else len(ax) + 1 + k, tm.ONEAX)
        return self.I.view(st, a, ax, self.I.info(st, a))

    @fun("ravel")
    def f_ravel(self, st, a, *r, **kw):
        a = self.A(st, a)
        if isinstance(a, Num):
            return self.f_atleast_1d(st, a)
        if not isinstance(a, Arr):
            return self.unk("ravel", st, a)
        ax = [x for x in a.axes if x != tm.ONEAX]
        if len(ax) <= 1:
            return self.I.view(st, a, ax or [tm.ONEAX], self.I.info(st, a))
        return self.unk("ravel of 2-D", st, a)

    @fun("reshape")
    def f_reshape(self, st, a, *shape, **kw):
        a = self.A(st, a)
        if not isinstance(a, (Arr, Num)):
            return self.unk("reshape", st, a)
        if isinstance(a, Num):
            a = self.f_atleast_1d(st, a)
        if len(shape) == 1 and isinstance(self.I.pick(shape[0], st), Ref):
            items = [x[1] for x in st.heap[self.I.pick(shape[0], st).oid].items if x[0] == "v"]
        else:
            items = list(shape)
        src = [x for x in a.axes if x != tm.ONEAX]
        out = []
        rest = list(src)
        for n in items:
            v = self.known(n)
            if v == -1:
                out.append(None)
                continue
            ax = self.len_axis(st, n)
            if ax is None:
                return self.unk("reshape", st, a)
            if ax == tm.ONEAX:
                out.append(ax)
            elif rest and (rest[0] == ax or tm.axis_len(rest[0]) == tm.axis_len(ax)):
                out.append(rest.pop(0))
            else:
                return self.unk("reshape", st, a)
        if None in out:
            if len(rest) > 1:
                return self.unk("reshape", st, a)
            out[out.index(None)] = rest.pop(0) if rest else tm.ONEAX
        if rest:
            # total size 1 axes only
            return self.unk("reshape", st, a)
        return self.I.view(st, a, out, self.I.info(st, a))

    @fun("broadcast_to")
    def f_broadcast_to(self, st, a, shape, **kw):
        a = self.A(st, a)
        axes = self.shape_axes(st, shape)
        if isinstance(a, Unknown) or axes is None:
            return self.unk("broadcast_to", st, a)
        z = self.fill(st, axes, Info(tm.T(tm.PZERO), NONE, RZ, deg=ANY), a.dt if a.dt in "ifc" else "i")
        return self.binop(st, "Add", z, a) if a.dt in "bifc" else self.unk("broadcast_to", st, a)

    @fun("shape")
    def f_shape(self, st, a, **kw):
        return self.arr_attr(st, self.A(st, a), "shape")

    @fun("ndim")
    def f_ndim(self, st, a, **kw):
        a = self.A(st, a)
        return num(len(self.axes(a))) if self.isnum(a) else self.unk("ndim", st, a)

    @fun("size")
    def f_size(self, st, a, *r, **kw):
        return self.arr_attr(st, self.A(st, a), "size")

    # ---------------------------------------------------------- stacking
    def seq_arrays(self, st, seq):
        """Values of a sequence argument, or None."""
        seq = self.I.pick(seq, st)
        if isinstance(seq, Arr):
            items, d = self.arr_items(st, seq)
        else:
            items, d = self.I.iter_items(seq, st)
        if items is None:
            return None
        out = []
        for it in items:
            if it[0] == "v":
                x = self.A(st, self.I.pick(it[1], st))
                out.append((tm.ONEAX, self.merge_choice(st, x)))
            elif it[0] == "ax":
                out.append((it[1], self.A(st, it[2])))
            else:
                return None
        return out

    def merge_choice(self, st, v):
        """One array of some length for alternatives of different lengths."""
        if not isinstance(v, Choice) or any(not isinstance(x, Arr) or len(x.axes) != 1 for _, x in v.alts):
            return v
        I = self.I
        xs = [x for _, x in v.alts]
        ks = tuple((frozenset(g), tm.axis_len(x.axes[0])) for g, x in v.alts)
        if any(n is None for _, n in ks):
            return v
        ax = ("anon", tm.opaque("phi", ks, nonneg=True, integer=True), ("n",))
        infos = [I.info(st, x) for x in xs]
        key = tuple((frozenset(g), self.bd(i.term, x.axes[0])) for (g, x), i in zip(v.alts, infos))
        j = infos[0]
        for i in infos[1:]:
            j = info_join(j, i)
        deps = j.deps
        for g, _ in v.alts:
            for k, _x in g:
                if k in st.gdeps:
                    deps = deps | st.gdeps[k][0]
        dt = djoin(*[x.dt for x in xs])
        t = tm.T(tm.patom(tm.atom("op", ("phi*",) + key, (ax,), dt != "c")))
        return I.newarr([ax], dt, j.rep(term=t, deps=deps), unit=xs[0].unit, ma=any(x.ma for x in xs))

    def cat(self, st, xs, dim, what):
        """Concatenate arrays along an existing dimension."""
        if xs is not None:
            xs = [(a, self.merge_choice(st, x)) for a, x in xs]
        if xs is None or any(isinstance(x, (Unknown, Choice)) or not self.isnum(x) for _, x in xs) or any(a != tm.ONEAX for a, _ in xs):
            return self.unk(what, st, *[x for _, x in xs or []])
        xs = [x for _, x in xs]
        if not xs:
            self.I.raise_("ValueError", "need at least one array to concatenate")
        nd = len(self.axes(xs[0]))
        if any(len(self.axes(x)) != nd for x in xs):
            self.I.raise_("ValueError", "all the input array dimensions must match")
        if dim < 0:
            dim += nd
        rest = [a for k, a in enumerate(self.axes(xs[0])) if k != dim]
        parts = []
        for x in xs:
            ax = list(self.axes(x))
            i = self.I.info(st, x)
            mine = [a for k, a in enumerate(ax) if k != dim]
            for p, q in zip(rest, mine):
                if p != q:
                    u = self.unify(st, p, q)
                    if u is False or p == tm.ONEAX or q == tm.ONEAX:
                        self.I.raise_("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
                    if u is None:
                        self.I.mayraise(st, "ValueError", "concatenate: dimensions")
                        return self.unk(what, st, *xs)
                    if q in [a for a in ax if a != q]:
                        return self.unk(what, st, *xs)
                    if p == ax[dim]:
                        n = tm.retag(ax[dim], "r")
                        i = i.rep(term=tm.rename_axis(i.term, ax[dim], n))
                        ax[dim] = n
                    i = i.rep(term=tm.rename_axis(i.term, q, p))
            parts.append((ax[dim], i))
        # distinct dummy for the joined axis when it clashes with the others
        dt = djoin(*[x.dt for x in xs])
        unit = next((x.unit for x in xs if getattr(x, "unit", None)), None)
        ps = []
        for a, i in parts:
            b = a
            if b[0] == "pr" and a not in rest:
                b2 = tm.retag(b, None)
                if b2 not in rest:
                    i = i.rep(term=tm.rename_axis(i.term, b, b2))
                    b = b2
            ps.append((b, i))
        return self.concat(st, ps, dim, rest, dt, unit=unit, ma=any(isinstance(x, Arr) and x.ma for x in xs))

    @fun("hstack")
    def f_hstack(self, st, seq, **kw):
        xs = self.seq_arrays(st, seq)
        if xs is None:
            return self.unk("hstack", st, seq)
        xs = [(a, self.f_atleast_1d(st, x) if isinstance(x, Num) else x) for a, x in xs]
        nd = [len(self.axes(x)) for _, x in xs]
        return self.cat(st, xs, 0 if nd and nd[0] == 1 else 1, "hstack")

    @fun("vstack", "row_stack")
    def f_vstack(self, st, seq, **kw):
        xs = self.seq_arrays(st, seq)
        if xs is None:
            return self.unk("vstack", st, seq)
        ys = []
        for a, x in xs:
            if isinstance(x, Unknown):
                return self.unk("vstack", st, *[z for _, z in xs])
            if a != tm.ONEAX:
                if len(xs) == 1 and isinstance(x, (Arr, Num)) and len(self.axes(x)) <= 1:
                    return self.stack_items(st, [("ax", a, x)])
                return self.unk("vstack", st, x)
            ys.append((a, self.f_atleast_2d(st, x)))
        return self.cat(st, ys, 0, "vstack")

    @fun("column_stack")
    def f_column_stack(self, st, seq, **kw):
        xs = self.seq_arrays(st, seq)
        if xs is None:
            return self.unk("column_stack", st, seq)
        ys = []
        for a, x in xs:
            if isinstance(x, Arr) and len(x.axes) == 1:
                x = self.I.view(st, x, [x.axes[0], tm.ONEAX], self.I.info(st, x))
            ys.append((a, x))
        return self.cat(st, ys, 1, "column_stack")

    @fun("concatenate", "concat")
    def f_concatenate(self, st, seq, axis=None, **kw):
        xs = self.seq_arrays(st, seq)
        k = self.known(axis, 0)
        if xs is None or k is None:
            return self.unk("concatenate", st, seq)
        if any(isinstance(x, Num) for _, x in xs):
            self.I.raise_("ValueError", "zero-dimensional arrays cannot be concatenated")
        return self.cat(st, xs, k, "concatenate")

    @fun("append")
    def f_append(self, st, a, b, axis=None, **kw):
        if axis is None or (isinstance(axis, Known) and axis.v is None):
            a, b = self.f_ravel(st, a), self.f_ravel(st, b)
            return self.cat(st, [(tm.ONEAX, a), (tm.ONEAX, b)], 0, "append")
        return self.cat(st, [(tm.ONEAX, self.A(st, a)), (tm.ONEAX, self.A(st, b))], self.known(axis, 0), "append")

    @fun("stack")
    def f_stack(self, st, seq, axis=None, **kw):
        xs = self.seq_arrays(st, seq)
        k = self.known(axis, 0)
        if xs is None:
            return self.unk("stack", st, seq)
        r = self.stack_items(st, [("v", x) if a == tm.ONEAX else ("ax", a, x) for a, x in xs])
        if k and isinstance(r, Arr):
            return self.f_moveaxis(st, r, num(0), num(k))
        return r

    @fun("tile", "repeat", "meshgrid", "roll", "flip", "fliplr", "flipud", "split", "insert", "delete", "pad", "outer", "kron", "tril", "triu", "indices")
    def f_shape_unknown(self, st, *a, **kw):
        return self.unk("array function", st, *a)

    @fun("flip")
    def f_flip(self, st, a, axis=None, **kw):
        a = self.A(st, a)
        if isinstance(a, Arr) and len(a.axes) == 1:
            return self.arr_getitem(st, a, Slice(None, None, num(-1)))
        return self.unk("flip", st, a)

    @fun("outer")
    def f_outer(self, st, a, b, **kw):
        a, b = self.A(st, a), self.A(st, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.axes) == len(b.axes) == 1:
            a = self.arr_getitem(st, a, (Slice(None, None, None), Known(None)))
            return self.binop(st, "Mult", a, b)
        return self.unk("outer", st, a, b)

    @fun("take")
    def f_take(self, st, a, idx, axis=None, **kw):
        a = self.A(st, a)
        if isinstance(a, Arr) and (len(a.axes) == 1 or self.known(axis) == 0):
            return self.arr_getitem(st, a, (idx,))
        if isinstance(a, Arr) and self.known(axis) == 1:
            return self.arr_getitem(st, a, (Slice(None, None, None), idx))
        return self.unk("take", st, a)

    @fun("compress")
    def f_compress(self, st, m, a, axis=None, **kw):
        a = self.A(st, a)
        m = self.A(st, m)
        if isinstance(a, Arr) and isinstance(m, Arr):
            m = self.tobool(st, m)
            return self.arr_getitem(st, a, (m,))
        return self.unk("compress", st, a)

    @fun("add.at", "subtract.at", "multiply.at", "maximum.at", "minimum.at", "divide.at", "logical_or.at", "logical_and.at")
    def f_at(self, st, a, idx, v=None, _name="add.at", **kw):
        """Unbuffered accumulation: element by element at known positions."""
        I = self.I
        a, idx = I.pick(a, st), I.pick(idx, st)
        v = self.A(st, I.pick(v, st)) if v is not None else None
        ops = {"add.at": "Add", "subtract.at": "Sub", "multiply.at": "Mult"}
        if not isinstance(a, Arr):
            return self.unk("ufunc.at", st, a, idx)
        ix = self.A(st, idx)
        if isinstance(ix, Num) and ix.dt == "i":
            pos = [ix]
        else:
            pos = self.known_positions(st, ix) if isinstance(ix, Arr) and ix.dt == "i" else None
            pos = None if pos is None else [num(k) for k in pos]
        if pos is None or _name not in ops or not isinstance(v, (Arr, Num)) or a.axes[0][0] != "lit":
            self.weak_store(st, a, self.unk("ufunc.at", st, a, ix, *([v] if v is not None else [])), [])
            return PYNONE
        for k, q in enumerate(pos):
            w = v
            if isinstance(v, Arr) and len(v.axes) == len(a.axes) and v.axes[0] != tm.ONEAX:
                w = self.arr_getitem(st, v, num(k))
            elif isinstance(v, Arr) and len(v.axes) == len(a.axes):
                w = self.arr_getitem(st, v, num(0))
            self.arr_setitem(st, a, q, I.binop(ops[_name], self.arr_getitem(st, a, q), w, st))
        return PYNONE

    @fun("copyto")
    def f_copyto(self, st, a, v, casting=None, where=None, **kw):
        a = self.I.pick(a, st)
        if isinstance(a, Arr):
            if where is None:
                self.arr_setitem(st, a, Known(Ellipsis), v)
            else:
                self.weak_store(st, a, self.unk("in-place function", st, v, where), [])
        return PYNONE

    @fun("put", "place", "putmask", "fill_diagonal")
    def f_inplace(self, st, a, *r, **kw):
        a = self.I.pick(a, st)
        if isinstance(a, Arr):
            self.weak_store(st, a, self.unk("in-place function", st, *r), [])
        return PYNONE
