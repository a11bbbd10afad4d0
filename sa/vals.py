"""Abstract values of the analysis.

Every numeric value carries an Info:
  term  value number (sa.terms.Term)
  deps  labels of the inputs that can influence it (data and control)
  re,im interval sets of the real and imaginary part (None = any)
  deg   degree of homogeneity in the data unit: a number, ANY (zero / NaN),
        None (unknown) or Bad (not homogeneous, with the reason)
  inv   missing-data tokens whose NaN / inf / masked-out garbage it may hold
  mk    tokens hidden by the mask of a masked array
  ok    for boolean arrays: ('bad'|'good', tokens)
"""

import math
from fractions import Fraction

from . import terms as tm

INF = math.inf
NONE = frozenset()


class AnyDeg:
    def __repr__(self):
        return "ANY"


ANY = AnyDeg()


class Bad:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"BAD({self.why})"

    def __eq__(self, o):
        return isinstance(o, Bad)

    def __hash__(self):
        return 7


# ------------------------------------------------------------- intervals
def ivn(pieces):
    ps = sorted(p for p in pieces if p[0] <= p[1])
    out = []
    for lo, hi in ps:
        if out and lo <= out[-1][1]:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    if len(out) > 6:
        out = [(out[0][0], out[-1][1])]
    return tuple(out)


TOP = ((-INF, INF),)


def ivmap2(f, a, b):
    if a is None or b is None:
        return None
    out = []
    for x in a:
        for y in b:
            out.append(f(x, y))
    return ivn(out)


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return x * y


def _mul1(x, y):
    c = [_m(x[0], y[0]), _m(x[0], y[1]), _m(x[1], y[0]), _m(x[1], y[1])]
    return (min(c), max(c))


def iv_add(a, b):
    return ivmap2(lambda x, y: (x[0] + y[0], x[1] + y[1]), a, b)


def iv_neg(a):
    return None if a is None else ivn([(-h, -l) for l, h in a])


def iv_sub(a, b):
    return iv_add(a, iv_neg(b))


def iv_mul(a, b):
    return ivmap2(_mul1, a, b)


def iv_has0(a):
    return a is None or any(l <= 0 <= h for l, h in a)


def iv_inv(a):
    if a is None:
        return None
    out = []
    for l, h in a:
        if l > 0 or h < 0:
            x, y = (0.0 if math.isinf(h) else 1 / h), (0.0 if math.isinf(l) else 1 / l)
            out.append((min(x, y), max(x, y)))
        elif l == 0 and h == 0:
            continue
        elif l == 0:
            out.append((0.0 if math.isinf(h) else 1 / h, INF))
        elif h == 0:
            out.append((-INF, 0.0 if math.isinf(l) else 1 / l))
        else:
            return None
    return ivn(out) if out else None


def iv_abs(a):
    if a is None:
        return ((0.0, INF),)
    out = []
    for l, h in a:
        if l >= 0:
            out.append((l, h))
        elif h <= 0:
            out.append((-h, -l))
        else:
            out.append((0.0, max(-l, h)))
    return ivn(out)


def iv_join(a, b):
    if a is None or b is None:
        return None
    return ivn(list(a) + list(b))


def iv_meet(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = []
    for x in a:
        for y in b:
            lo, hi = max(x[0], y[0]), min(x[1], y[1])
            if lo <= hi:
                out.append((lo, hi))
    return ivn(out) or b


def iv_mono(f, a, dom=(-INF, INF)):
    if a is None:
        a = (dom,)
    out = []
    for l, h in a:
        l, h = max(l, dom[0]), min(h, dom[1])
        if l > h:
            continue
        out.append((f(l), f(h)))
    return ivn(out) if out else None


def iv_const(v):
    return ((float(v), float(v)),)


def iv_bounds(a):
    return (-INF, INF) if a is None else (a[0][0], a[-1][1])


def iv_sin(a):
    if a is None:
        return ((-1.0, 1.0),)
    out = []
    for l, h in a:
        if l >= -math.pi / 2 - 1e-12 and h <= math.pi / 2 + 1e-12:
            out.append((math.sin(l), math.sin(h)))
        elif h - l >= 2 * math.pi:
            return ((-1.0, 1.0),)
        else:
            lo, hi = sorted((math.sin(l), math.sin(h)))
            k = math.ceil((l - math.pi / 2) / (2 * math.pi))
            if math.pi / 2 + 2 * math.pi * k <= h:
                hi = 1.0
            k = math.ceil((l + math.pi / 2) / (2 * math.pi))
            if -math.pi / 2 + 2 * math.pi * k <= h:
                lo = -1.0
            out.append((lo, hi))
    return ivn(out)


def iv_subset(a, lo, hi, eps=1e-9):
    if a is None:
        return False
    return a[0][0] >= lo - eps and a[-1][1] <= hi + eps


# ------------------------------------------------------------------ Info
class Info:
    __slots__ = ("term", "deps", "re", "im", "deg", "inv", "mk", "ok")

    def __init__(self, term, deps=NONE, re=None, im=((0.0, 0.0),), deg=0, inv=NONE, mk=NONE, ok=None):
        self.term = term
        self.deps = deps
        self.re = re
        self.im = im
        self.deg = deg
        self.inv = inv
        self.mk = mk
        self.ok = ok

    def rep(self, **kw):
        n = Info(self.term, self.deps, self.re, self.im, self.deg, self.inv, self.mk, self.ok)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def same(self, o):
        return (self.term == o.term and self.deps == o.deps and self.re == o.re and self.im == o.im
                and self.deg == o.deg and self.inv == o.inv and self.mk == o.mk and self.ok == o.ok)

    def __repr__(self):
        return f"<{self.term!r} deps={sorted(self.deps)} re={self.re} deg={self.deg} inv={sorted(self.inv)}>"


def const_info(v, deps=NONE):
    if isinstance(v, bool):
        return Info(tm.T(tm.pconst(int(v))), deps, iv_const(v), deg=0)
    if isinstance(v, complex):
        return Info(tm.T(tm.from_number(v)), deps, iv_const(v.real), iv_const(v.imag), deg=ANY if v == 0 else 0)
    if isinstance(v, (int, float)):
        if v != v:
            return Info(tm.T(tm.opaque("const", ("nan",))), deps, (), deg=ANY)
        return Info(tm.T(tm.from_number(v)), deps, iv_const(v), deg=ANY if v == 0 else 0)
    return Info(tm.T(tm.opaque("const", (repr(v),))), deps)


def deg_add(a, b, why):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is ANY:
        return b
    if b is ANY:
        return a
    if a is None or b is None:
        return None
    if a == b:
        return a
    return Bad(why())


def deg_mul(a, b, sgn=1):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is ANY or b is ANY:
        return ANY
    if a is None or b is None:
        return None
    return a + sgn * b


def deg_join(a, b):
    if isinstance(a, Bad):
        return a
    if isinstance(b, Bad):
        return b
    if a is ANY:
        return b
    if b is ANY:
        return a
    if a is None or b is None:
        return None
    return a if a == b else None


def info_join(a, b, ga=NONE, gb=NONE):
    """Dataflow join; ga / gb are the guards of the two sides."""
    if a is b:
        return a
    ok = a.ok if a.ok == b.ok else None
    if ok is None and a.ok and b.ok and a.ok[0] == b.ok[0]:
        ok = (a.ok[0], a.ok[1] | b.ok[1]) if a.ok[0] == "good" else (a.ok[0], a.ok[1] & b.ok[1])
        ok = None
    deg = deg_join(a.deg, b.deg)
    return Info(tm.tjoin(a.term, ga, b.term, gb), a.deps | b.deps, iv_join(a.re, b.re), iv_join(a.im, b.im),
                deg, a.inv | b.inv, a.mk | b.mk, ok)


# ---------------------------------------------------------------- values
class Value:
    __slots__ = ()


NOVAL = object()


class Num(Value):
    """Immutable scalar (python or numpy number, symbolic string)."""

    __slots__ = ("dt", "info", "val", "lenof", "unit")

    def __init__(self, dt, info, val=NOVAL, lenof=None, unit=None):
        self.dt, self.info, self.val, self.lenof, self.unit = dt, info, val, lenof, unit

    def __repr__(self):
        return f"Num({self.dt},{self.val if self.val is not NOVAL else self.info.term})"


def num(v, deps=NONE):
    dt = {bool: "b", int: "i", float: "f", complex: "c"}[type(v)]
    return Num(dt, const_info(v, deps), v)


class Known(Value):
    """Python constant that is not a number: str, None, bytes, Ellipsis..."""

    __slots__ = ("v", "deps")

    def __init__(self, v, deps=NONE):
        self.v, self.deps = v, deps

    def __repr__(self):
        return f"Known({self.v!r})"


PYNONE = Known(None)


class Arr(Value):
    """Array handle; axes fixed, contents live in the heap (or `init`)."""

    __slots__ = ("oid", "axes", "dt", "init", "root", "parents", "unit", "ma", "site")
    n = 0

    def __init__(self, axes, dt, info, root=None, parents=(), unit=None, ma=False, oid=None):
        if oid is None:
            Arr.n += 1
            oid = ("a", Arr.n)
        self.oid = oid
        self.axes = tuple(axes)
        self.dt, self.init, self.unit, self.ma = dt, info, unit, ma
        self.root = root  # owner label of the storage: 'arg:..', 'global:..' or None
        self.parents = parents  # oids whose storage this one may share

    def __repr__(self):
        return f"Arr{self.oid[1]}({self.dt},{[tm.short(a) for a in self.axes]},{self.init.term})"


class Ref(Value):
    """Reference to a heap container or instance: kind list/tuple/dict/set/inst."""

    __slots__ = ("oid", "kind", "root")
    n = 0

    def __init__(self, kind, root=None, oid=None):
        if oid is None:
            Ref.n += 1
            oid = ("r", Ref.n)
        self.oid, self.kind, self.root = oid, kind, root

    def __repr__(self):
        return f"Ref({self.kind},{self.oid[1]})"


class ListCell:
    """items: list of ('v', value) or ('ax', axis, element value)."""

    __slots__ = ("items", "deps")

    def __init__(self, items, deps=NONE):
        self.items = tuple(items)
        self.deps = deps


class DictCell:
    """Known entries in order; `rest` = (key, value, axis) for symbolic ones."""

    __slots__ = ("d", "rest", "cls", "maybe", "deps")

    def __init__(self, d=None, rest=None, cls=None, maybe=NONE, deps=NONE):
        self.d = dict(d or {})
        self.rest = rest
        self.cls = cls  # user class for dict subclasses
        self.maybe = maybe  # keys that may be absent
        self.deps = deps

    def copy(self):
        return DictCell(self.d, self.rest, self.cls, self.maybe, self.deps)


class InstCell:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})


class Func(Value):
    __slots__ = ("node", "mod", "name", "qual", "closure", "defaults", "kwdefaults", "cls", "kind", "deco", "frameid", "oid")

    def __init__(self, node, mod, qual, closure=None, defaults=(), kwdefaults=None, cls=None):
        self.node, self.mod, self.qual = node, mod, qual
        self.name = getattr(node, "name", "<lambda>")
        self.closure, self.defaults, self.kwdefaults, self.cls = closure, defaults, kwdefaults or {}, cls
        self.deco = ()
        self.frameid = None

    def __repr__(self):
        return f"Func({self.qual})"


class Cls(Value):
    __slots__ = ("name", "bases", "ns", "mod", "node", "oid")

    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def __repr__(self):
        return f"Cls({self.name})"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name]
        return None

    def builtin_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext):
                    return b.path
        return None


class Mod(Value):
    __slots__ = ("name", "env", "path", "done")

    def __init__(self, name, path=None):
        self.name, self.env, self.path, self.done = name, {}, path, False

    def __repr__(self):
        return f"Mod({self.name})"


class Ext(Value):
    """Attribute path in an external library or builtins: numpy.linalg.lstsq."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"


class Bound(Value):
    """Method bound to an abstract object."""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"Bound({self.name})"


class BoundF(Value):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Slice(Value):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Choice(Value):
    """Different kinds of value depending on the path: [(guards, value)]."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f"Choice{[v for _, v in self.alts]}"


class Exc(Value):
    """Exception instance or class."""

    __slots__ = ("name", "msg", "loc", "mustcls", "args")

    def __init__(self, name, msg="", loc=None, args=()):
        self.name, self.msg, self.loc, self.args = name, msg, loc, args

    def __repr__(self):
        return f"Exc({self.name}: {self.msg} @ {self.loc})"


class Iter(Value):
    """One-shot iterator over items: list of ('v', v) / ('ax', axis, v)."""

    __slots__ = ("items", "deps")

    def __init__(self, items, deps=NONE):
        self.items, self.deps = tuple(items), deps


class Unknown(Value):
    __slots__ = ("deps", "why", "root")

    def __init__(self, why="", deps=NONE, root=None):
        self.why, self.deps, self.root = why, deps, root

    def __repr__(self):
        return f"Unknown({self.why})"


class AbsRaise(Exception):
    """The analysed code definitely raises here."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc
