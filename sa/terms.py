"""Value-number terms: polynomials over interned atoms in a commutative-ring
normal form.

A term is the *name* the analysis gives to a run-time value.  Two values that
get the same term are equal in exact real/complex arithmetic for every input;
values with terms that cannot be compared are simply "unknown" to the rules.

Poly      sum of monomials, coefficients are Gaussian rationals
Atom      interned opaque quantity (input, table entry, exp(P), |P|, arg P,
          1/P, sum over an axis, ...), each with the axes it varies along
Term      guarded alternatives [(guard, Poly)]: the dataflow join of Polys;
          guard records which alternative of which join / array segment
"""

from fractions import Fraction

ZERO = Fraction(0)
ONE = Fraction(1)
MAXMON = 220
MAXALT = 64


_ORD = {}


def ordk(x):
    """Serial number of a hashable object: an order that is the same for equal
    objects everywhere in this process."""
    n = _ORD.get(x)
    if n is None:
        n = _ORD[x] = len(_ORD)
    return n


class Atom:
    __slots__ = ("id", "kind", "key", "axes", "real", "nonneg", "integer", "_hash")
    table = {}
    byid = []

    def __repr__(self):
        return atom_str(self)


REALPLAIN, SIMPLE = [], []


def atom(kind, key=(), axes=(), real=True, nonneg=False, integer=False):
    axes = tuple(axes)
    k = (kind, key, axes, real)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.byid)
        a.kind, a.key, a.axes = kind, key, axes
        a.real, a.nonneg, a.integer = real, nonneg, integer
        Atom.table[k] = a
        Atom.byid.append(a)
        REALPLAIN.append(bool(real) and kind not in ("pow", "sum", "conj"))
        SIMPLE.append(kind not in ("exp", "abs", "pow", "bool"))
    return a


def _cadd(a, b):
    return (_nz(a[0] + b[0]), _nz(a[1] + b[1]))


def _nz(x):
    """Coefficients are ints where they can be (Fraction arithmetic is slow)."""
    return x if x.__class__ is int else x.numerator if x.denominator == 1 else x


def _cmul(a, b):
    a0, a1 = a
    b0, b1 = b
    if not a1 and not b1:
        return (_nz(a0 * b0), 0)
    return (_nz(a0 * b0 - a1 * b1), _nz(a0 * b1 + a1 * b0))


def _cinv(a):
    d = Fraction(a[0] * a[0] + a[1] * a[1])
    return (_nz(a[0] / d), _nz(-a[1] / d))


C1 = (1, 0)
CI = (0, 1)


class Poly:
    """m: dict monomial -> coefficient; monomial: tuple of (Atom id, exponent)."""

    __slots__ = ("m", "_h", "_ax", "_re")

    def __init__(self, m):
        self.m = m
        self._h = None
        self._ax = None
        self._re = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and hash(self) == hash(o) and self.m == o.m)

    def __repr__(self):
        return poly_str(self)

    # -- queries
    def is_zero(self):
        return not self.m

    def const(self):
        """Gaussian-rational constant or None."""
        if not self.m:
            return (ZERO, ZERO)
        if len(self.m) == 1 and () in self.m:
            c = self.m[()]
            return (Fraction(c[0]), Fraction(c[1]))
        return None

    def rconst(self):
        c = self.const()
        return c[0] if c is not None and c[1] == 0 else None

    def atoms(self):
        s = set()
        for mono in self.m:
            for i, _ in mono:
                s.add(Atom.byid[i])
        return s

    def axes(self):
        if self._ax is None:
            s = set()
            for a in self.atoms():
                s |= atom_axes(a)
            self._ax = frozenset(s)
        return self._ax

    def all_real(self):
        if self._re is None:
            self._re = all(not c[1] and all(REALPLAIN[i] for i, _ in mono) for mono, c in self.m.items()) or conj(self) == self
        return self._re


def bound_tag(ax):
    """Axis bound inside a function atom (reductions, interpolation tables)."""
    if ax[0] == "pr":
        return str(ax[2]).startswith("bd")
    if ax[0] == "cat":
        return any(bound_tag(x) for x in ax[1])
    return False


def atom_axes(a):
    if a.kind in ("exp", "arg", "abs", "int", "fn"):
        s = set(a.axes)
        for k in a.key:
            if isinstance(k, Poly):
                s |= {x for x in k.axes() if not bound_tag(x)} if a.kind == "fn" else k.axes()
        return s
    if a.kind == "pow":
        return set(a.key[0].axes())
    if a.kind == "sum":
        ax, P = a.key
        return set(P.axes()) - {ax}
    if a.kind == "conj":
        return atom_axes(a.key[0])
    s = set()
    for ax in a.axes:
        if isinstance(ax, tuple) and ax and ax[0] == "ix":
            s |= ax[1].axes()
        else:
            s.add(ax)
    return s


# ---------------------------------------------------------------- builders
PZERO = Poly({})


def pconst(re, im=0):
    re, im = Fraction(re), Fraction(im)
    if re == 0 and im == 0:
        return PZERO
    return Poly({(): (_nz(re), _nz(im))})


PONE = pconst(1)
PI_ = None


def patom(a, e=1):
    return Poly({((a.id, Fraction(e) if not isinstance(e, int) else e),): C1})


def sym(name, args=(), axes=(), real=True, nonneg=False, integer=False):
    return patom(atom("sym", (name,) + tuple(args), axes, real, nonneg, integer))


PI = sym("pi", nonneg=True)
_PI_ID = next(iter(PI.m))[0][0]


def opaque(name, args=(), axes=(), real=True, nonneg=False, integer=False):
    return patom(atom("op", (name,) + tuple(args), axes, real, nonneg, integer))


def from_number(v):
    if isinstance(v, bool):
        return pconst(int(v))
    if isinstance(v, int):
        return pconst(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return opaque("const", (repr(v),))
        return pconst(Fraction(repr(v)))
    if isinstance(v, complex):
        return add(from_number(v.real), mul(from_number(v.imag), pconst(0, 1)))
    return opaque("const", (repr(v),))


def _blow(name, *ps):
    axes = set()
    real = True
    for p in ps:
        axes |= p.axes()
        real = real and p.all_real()
    if not real and len(ps) == 2:
        real = conj(ps[0]) == ps[1]
    return opaque("big:" + name, ps, tuple(sorted(axes, key=ordk)), real=real)


def add(a, b):
    if not a.m:
        return b
    if not b.m:
        return a
    m = dict(a.m)
    for k, c in b.m.items():
        o = m.get(k)
        if o is None:
            m[k] = c
        else:
            s = _cadd(o, c)
            if s[0] == 0 and s[1] == 0:
                del m[k]
            else:
                m[k] = s
    if len(m) > MAXMON:
        return _blow("add", a, b)
    return Poly(m)


def scale(a, c):
    if not c[0] and not c[1]:
        return PZERO
    if c[0] == 1 and not c[1]:
        return a
    return Poly({k: _cmul(v, c) for k, v in a.m.items()})


def neg(a):
    return scale(a, (-ONE, ZERO))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if not a.m or not b.m:
        return PZERO
    if len(a.m) == 1 and () in a.m:
        return scale(b, a.m[()])
    if len(b.m) == 1 and () in b.m:
        return scale(a, b.m[()])
    if len(a.m) * len(b.m) > MAXMON:
        return _blow("mul", *sorted((a, b), key=hash))
    out = PZERO
    acc = {}
    extra = []
    for ka, va in a.m.items():
        for kb, vb in b.m.items():
            r = _mono_mul(ka, kb)
            c = _cmul(va, vb)
            if isinstance(r, tuple):
                o = acc.get(r)
                if o is None:
                    acc[r] = c
                else:
                    s = _cadd(o, c)
                    if s[0] == 0 and s[1] == 0:
                        del acc[r]
                    else:
                        acc[r] = s
            else:
                extra.append(scale(r, c))
    out = Poly(acc)
    for e in extra:
        out = add(out, e)
    return out


def _mono_mul(ka, kb):
    """Monomial (tuple) when no reduction is needed, else Poly."""
    r = _mm_cache.get((ka, kb))
    if r is None:
        r = _mm_cache[ka, kb] = _mono_mul2(ka, kb)
    return r


_mm_cache = {}


def _mono_mul2(ka, kb):
    d = dict(ka)
    for i, e in kb:
        ne = d.get(i, 0) + e
        if ne == 0:
            d.pop(i, None)
        else:
            d[i] = int(ne) if isinstance(ne, Fraction) and ne.denominator == 1 else ne
    exps = []
    special = []
    for i, e in d.items():
        if SIMPLE[i]:
            continue
        a = Atom.byid[i]
        if a.kind == "exp":
            exps.append((a, e))
        elif a.kind == "abs" and (e >= 2 or e <= -2):
            special.append((i, e))
        elif a.kind == "pow" and isinstance(e, int) and e >= 1:
            special.append((i, e))
        elif a.kind == "pow" and isinstance(e, Fraction) and e > 1:
            special.append((i, e))
        elif a.kind == "bool" and e != 1 and e > 0:
            special.append((i, e))
    need_exp = len(exps) > 1 or (len(exps) == 1 and exps[0][1] != 1)
    if not special and not need_exp:
        return tuple(sorted(d.items()))
    for a, _ in exps:
        if need_exp:
            del d[a.id]
    for i, _ in special:
        del d[i]
    out = Poly({tuple(sorted(d.items())): C1})
    if need_exp:
        arg = PZERO
        for a, e in exps:
            arg = add(arg, scale(a.key[0], (Fraction(e), ZERO)))
        out = mul(out, exp(arg))
    for i, e in special:
        a = Atom.byid[i]
        if a.kind == "bool":
            out = mul(out, patom(a))
            continue
        if a.kind == "abs":
            P = a.key[0]
            n = abs(e) // 2
            rest = abs(e) - 2 * n
            sq = mul(P, conj(P))
            p = ipow(sq, int(n)) if e > 0 else power(sq, -int(n))
            out = mul(out, p)
            if rest:
                out = mul(out, patom(a, rest if e > 0 else -rest))
        else:
            B = a.key[0]
            n = int(e)
            rest = e - n
            out = mul(out, ipow(B, n))
            if rest:
                out = mul(out, patom(a, rest))
    return out


def ipow(p, n):
    r = PONE
    for _ in range(n):
        r = mul(r, p)
    return r


def _lead(p):
    k = min(p.m, key=lambda mono: (len(mono), mono))
    return k, p.m[k]


def power(p, e):
    """p ** e for rational constant e."""
    if isinstance(e, Fraction) and e.denominator == 1:
        e = int(e)
    if e == 0:
        return PONE
    if e == 1:
        return p
    if not p.m:
        return PZERO if e > 0 else opaque("zerodiv")
    if isinstance(e, int) and 0 < e <= 8 and len(p.m) ** e <= MAXMON * 4:
        return ipow(p, e)
    if isinstance(e, int) and e < 0 and len(p.m) == 1:
        (mono, c), = p.m.items()
        # exp(Q)^-n stays inside mono multiplication
        base = scale(Poly({tuple((i, -x) for i, x in mono): C1}), _cinv(c))
        # normalise exp exponents
        base = mul(base, PONE) if not any(Atom.byid[i].kind == "exp" for i, _ in mono) else _renorm(base)
        return ipow(base, -e)
    if isinstance(e, int) and e < 0:
        k, c = _lead(p)
        n = scale(p, _cinv(c))
        # base_normalised ** e * c**e
        a = atom("pow", (n,), (), real=n.all_real())
        f = PONE
        ci = pconst(1)
        for _ in range(-e):
            ci = scale(ci, _cinv(c))
        return mul(patom(a, e), ci)
    # fractional
    if e == Fraction(1, 2):
        return sqrt(p)
    c = p.rconst()
    if c is not None and c > 0 and c == 1:
        return PONE
    if isinstance(e, Fraction):
        k, cc = _lead(p)
        a = atom("pow", (p,), (), real=p.all_real())
        return patom(a, e)
    return opaque("pow", (p, e), tuple(sorted(p.axes(), key=ordk)), real=p.all_real())


def _renorm(p):
    out = PZERO
    for mono, c in p.m.items():
        t = pconst(1)
        for i, e in mono:
            a = Atom.byid[i]
            if a.kind == "exp":
                t = mul(t, exp(scale(a.key[0], (Fraction(e), ZERO))))
            else:
                t = mul(t, patom(a, e))
        out = add(out, scale(t, c))
    return out


def _perfect_square(fr):
    import math

    if fr < 0:
        return None
    n, d = fr.numerator, fr.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt(p):
    if not p.m:
        return PZERO
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c[1] == 0:
            r = _perfect_square(c[0])
            if r is not None:
                out = pconst(r)
                ok = True
                for i, e in mono:
                    a = Atom.byid[i]
                    if isinstance(e, int) and e % 2 == 0:
                        out = mul(out, ipow(absval(patom(a)), e // 2) if e > 0 else power(absval(patom(a)), e // 2))
                    elif a.nonneg:
                        out = mul(out, patom(a, Fraction(e) / 2))
                    elif a.kind == "conj" or not a.real:
                        ok = False
                    else:
                        ok = False
                if ok:
                    return out
    # sqrt(P * conj P) with P P* factorable is not attempted
    k, c = _lead(p)
    if c[1] == 0:
        r = _perfect_square(abs(c[0]))
        if r is not None and c[0] > 0:
            n = scale(p, (_nz(Fraction(1) / c[0]), 0))
            a = atom("pow", (n,), (), real=n.all_real(), nonneg=True)
            return scale(patom(a, Fraction(1, 2)), (r, ZERO))
    a = atom("pow", (p,), (), real=p.all_real(), nonneg=True)
    return patom(a, Fraction(1, 2))


def div(a, b):
    c = b.const()
    if c is not None and (c[0] != 0 or c[1] != 0):
        return scale(a, _cinv(c))
    if a == b and a.m:
        return PONE
    # exact proportionality
    if len(a.m) == len(b.m) > 1:
        ka, ca = _lead(a)
        kb, cb = _lead(b)
        q = _cmul(ca, _cinv(cb))
        if scale(b, q) == a:
            return pconst(*q)
    return mul(a, power(b, -1))


_conj_cache = {}


_conj_atom_cache = {}


def _conj_atom(i):
    """Conjugate of an atom: its own id, another atom's id, or a Poly."""
    r = _conj_atom_cache.get(i)
    if r is not None:
        return r
    a = Atom.byid[i]
    if a.real and a.kind != "pow" and a.kind != "sum":
        r = i
    else:
        if a.kind == "exp":
            r = exp(conj(a.key[0]))
        elif a.kind == "conj":
            r = patom(a.key[0], 1)
        elif a.kind == "pow":
            B = conj(a.key[0])
            r = i if B == a.key[0] else atom("pow", (B,), (), real=False).id
        elif a.kind == "sum":
            r = sum_axis(a.key[0], conj(a.key[1]))
        else:
            r = atom("conj", (a,), (), real=False).id
        if isinstance(r, Poly) and len(r.m) == 1:
            (m, c), = r.m.items()
            if c == C1 and len(m) == 1 and m[0][1] == 1:
                r = m[0][0]
    _conj_atom_cache[i] = r
    return r


def conj(p):
    r = _conj_cache.get(p)
    if r is not None:
        return r
    m = {}
    rest = []
    for mono, c in p.m.items():
        k = []
        slow = False
        for i, e in mono:
            j = _conj_atom(i)
            if j.__class__ is not int:
                slow = True
                break
            k.append((j, e))
        cc = (c[0], -c[1])
        if not slow:
            k = tuple(k)
            if k != mono:
                k = tuple(sorted(k))
                if len({x for x, _ in k}) != len(k):
                    slow = True
            if not slow and k not in m:
                m[k] = cc
                continue
        t = Poly({(): cc})
        for i, e in mono:
            j = _conj_atom(i)
            t = mul(t, patom(Atom.byid[j], e) if j.__class__ is int else power(j, e))
        rest.append(t)
    out = Poly(m)
    for t in rest:
        out = add(out, t)
    _conj_cache[p] = out
    return out


def real(p):
    if p.all_real():
        return p
    return scale(add(p, conj(p)), (Fraction(1, 2), ZERO))


def imag(p):
    if p.all_real():
        return PZERO
    return scale(sub(p, conj(p)), (ZERO, Fraction(-1, 2)))


def exp(p):
    """exp of a term, with exp(i n arg z) = (z/|z|)^n and exp(2 pi i k) = 1."""
    out = PONE
    rest = {}
    for mono, c in p.m.items():
        if c[0] == 0 and len(mono) == 1:
            a = Atom.byid[mono[0][0]]
            if a.kind == "arg" and mono[0][1] == 1 and c[1].denominator == 1:
                n = int(c[1])
                z = a.key[0]
                base = div(z, absval(z)) if n > 0 else div(conj(z), absval(z))
                out = mul(out, ipow(base, abs(n)))
                continue
        if c[0] == 0:
            ints, ok, npi = [], True, 0
            for i, e in mono:
                a = Atom.byid[i]
                if i == _PI_ID and e == 1:
                    npi = 1
                elif a.integer and isinstance(e, int) and e > 0:
                    ints.append(a)
                else:
                    ok = False
            if ok and npi:
                q = Fraction(c[1]) / 2
                if ints and q.denominator == 1:
                    continue
                if not ints:
                    # exp(i*pi*c1)
                    h = c[1] * 2
                    if h.denominator == 1:
                        out = mul(out, [PONE, pconst(0, 1), pconst(-1), pconst(0, -1)][int(h) % 4])
                        continue
            elif ok and ints:
                # the number pi rather than the symbol
                q = float(c[1]) / (2 * math.pi)
                if abs(q) > 0.5 and abs(q - round(q)) < 1e-12:
                    continue
        rest[mono] = c
    if rest:
        P = Poly(rest)
        out = mul(out, patom(atom("exp", (P,), (), real=P.all_real(), nonneg=P.all_real()))) if out != PONE else patom(
            atom("exp", (P,), (), real=P.all_real(), nonneg=P.all_real()))
    return out


def absval(p):
    if not p.m:
        return PZERO
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        r = None
        if c[1] == 0:
            r = abs(c[0])
        elif c[0] == 0:
            r = abs(c[1])
        else:
            r = _perfect_square(c[0] ** 2 + c[1] ** 2)
        if r is not None:
            out = pconst(r)
            for i, e in mono:
                a = Atom.byid[i]
                if a.nonneg or a.kind == "abs":
                    out = mul(out, patom(a, e))
                elif a.kind == "exp":
                    out = mul(out, exp(real(a.key[0])))
                elif a.kind == "conj":
                    out = mul(out, power(_abs_atom(patom(a.key[0])), e))
                else:
                    out = mul(out, power(_abs_atom(patom(a)), e))
            return out
    # pull out the leading coefficient's modulus when rational
    k, c = _lead(p)
    r = abs(c[0]) if c[1] == 0 else (abs(c[1]) if c[0] == 0 else None)
    if r:
        n = scale(p, _cinv(c))
        return scale(_abs_atom(n), (r, ZERO))
    return _abs_atom(p)


def _abs_atom(p):
    q = conj(p)
    if q != p and _ord(q) < _ord(p):
        p = q
    return patom(atom("abs", (p,), (), real=True, nonneg=True))


_ordtab = {}


def _ord(p):
    o = _ordtab.get(p)
    if o is None:
        o = _ordtab[p] = len(_ordtab)
    return o


def angle(p):
    """arg of a complex term, in radians."""
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c[1] == 0 and c[0] > 0 and c[0] != 1:
            p = scale(p, (_nz(Fraction(1) / c[0]), 0))
    elif p.m:
        k, c = _lead(p)
        r = c[0] if c[1] == 0 else None
        if r is not None and r > 0:
            p = scale(p, (_nz(Fraction(1) / r), 0))
    cp = p.const()
    if cp is not None and cp[1] == 0 and cp[0] > 0:
        return PZERO
    return patom(atom("arg", (p,), (), real=True))


def floor_atom(p):
    c = p.rconst()
    if c is not None:
        return pconst(c.numerator // c.denominator)
    r = half_floor(p)
    if r is not None:
        return r
    return patom(atom("int", (p,), (), real=True, integer=True))


PARITY = {}  # sample axis -> assumed parity of its length (a configuration)


def len_parity(a):
    if a.kind == "sym" and a.key[0] == "len":
        ax = a.key[1] if len(a.key) > 1 else (a.axes[0] if a.axes else None)
        while isinstance(ax, tuple) and ax and ax[0] in ("sel", "pr", "perm"):
            ax = ax[1]
        return PARITY.get(ax)
    return None


def half_floor(p):
    """floor of an integer combination divided by two, for lengths of assumed parity."""
    if not PARITY:
        return None
    par = Fraction(0)
    hit = False
    for mono, c in p.m.items():
        if c[1] != 0:
            return None
        if not mono:
            par += c[0]
            continue
        if len(mono) == 1 and mono[0][1] == 1:
            a = Atom.byid[mono[0][0]]
            if c[0].denominator == 2:
                q = len_parity(a)
                if q is None:
                    return None
                par += c[0] * q
                hit = True
                continue
        if c[0].denominator != 1 or any(not Atom.byid[i].integer or e < 0 or e != int(e) for i, e in mono):
            return None
    if not hit and par.denominator == 1:
        return None
    fl = Fraction(par.numerator // par.denominator)
    return add(p, pconst(fl - par))


def mod(p, q):
    """p mod q = p - q * (some integer)."""
    pc, qc = p.rconst(), q.rconst()
    if pc is not None and qc:
        return pconst(pc - qc * ((pc / qc).numerator // (pc / qc).denominator))
    return sub(p, mul(q, floor_atom(div(p, q))))


def fn(name, *args, real=True, nonneg=False, axes=()):
    return patom(atom("fn", (name,) + args, axes, real=real, nonneg=nonneg))


def cos(p):
    i = pconst(0, 1)
    return scale(add(exp(mul(i, p)), exp(neg(mul(i, p)))), (Fraction(1, 2), ZERO))


def sin(p):
    i = pconst(0, 1)
    return scale(sub(exp(mul(i, p)), exp(neg(mul(i, p)))), (ZERO, Fraction(-1, 2)))


# ------------------------------------------------------------------- axes
# ('one',)            length 1
# ('lit', n)          literal length n >= 2
# ('base', name)      an input / table dimension
# ('cat', (ax, ...))  concatenation of axes
# ('sel', ax, toks)   samples of ax where none of the missing-data tokens holds
# ('flt', ax, key)    samples of ax chosen by another condition
# ('perm', ax, key)   reordering of ax
# ('pr', ax, tag)     a second, independent index over the same axis
# ('anon', P, key)    length P, origin unknown
ONEAX = ("one",)


def litax(n):
    return ONEAX if n == 1 else ("lit", n)


def axis_len(ax):
    """Length of an axis as a Poly (None when unknown)."""
    if ax is None:
        return None
    t = ax[0]
    if t == "one":
        return PONE
    if t == "lit":
        return pconst(ax[1])
    if t == "anon":
        return ax[1]
    if t == "cat":
        s = PZERO
        for x in ax[1]:
            n = axis_len(x)
            if n is None:
                return None
            s = add(s, n)
        return s
    if t in ("perm", "pr"):
        return axis_len(ax[1])
    if t == "sel" and not ax[2]:
        return axis_len(ax[1])
    return sym("len", (ax,), nonneg=True, integer=True)


def untag(ax):
    if ax[0] == "pr":
        return untag(ax[1])
    if ax[0] == "cat":
        return ("cat", tuple(untag(x) for x in ax[1]))
    return ax


def retag(ax, tag):
    """An independent index over the same axis."""
    if ax[0] == "one":
        return ax
    if ax[0] == "cat":
        return ("cat", tuple(retag(x, tag) for x in ax[1]))
    if ax[0] == "pr":
        ax = ax[1]
    return ax if tag is None else ("pr", ax, tag)


def inner_axes(ax):
    """ax plus the segment axes its alternatives may be written in."""
    out = [ax]
    if ax[0] == "cat":
        for x in ax[1]:
            out += inner_axes(x)
    elif ax[0] in ("perm", "sel", "flt"):
        if ax[1][0] in ("cat", "lit", "perm", "sel", "flt"):
            out += inner_axes(ax[1])[1:] if ax[1][0] == "cat" else inner_axes(ax[1])[1:]
    elif ax[0] == "pr":
        out += [retag(x, ax[2]) for x in inner_axes(ax[1])[1:]]
    return out


def segments(ax):
    """Segment list of a cat / lit axis, else None."""
    if ax[0] == "lit":
        return [ONEAX] * ax[1]
    if ax[0] == "cat":
        return list(ax[1])
    if ax[0] == "pr":
        s = segments(ax[1])
        return None if s is None else [retag(x, ax[2]) for x in s]
    return None


def mkcat(axs):
    out = []
    for a in axs:
        s = segments(a)
        out += s if s is not None else [a]
    if all(x == ONEAX for x in out):
        return litax(len(out)) if out else ("lit", 0)
    return out[0] if len(out) == 1 else ("cat", tuple(out))


def ixsym(ax):
    return PZERO if ax == ONEAX else sym("ix", (), (ax,), nonneg=True, integer=True)


def possym(target, new):
    """Position along `target` of the elements of `new`, an axis derived from it."""
    return ixsym(target) if new == target else opaque("pos", (target,), (new,), nonneg=True, integer=True)


def ixaxis(p):
    """Axis reference for an index expression."""
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if c == C1 and len(mono) == 1 and mono[0][1] == 1:
            a = Atom.byid[mono[0][0]]
            if a.kind == "sym" and a.key == ("ix",):
                return a.axes[0]
    return ("ix", p)


def sum_axis(ax, p):
    """Sum of p over axis ax (linear; reorderings are normalised away)."""
    if not p.m:
        return PZERO
    if ax[0] == "perm":
        return sum_axis(ax[1], subst_axis(p, {ax: ax[1]}))
    if ax[0] == "pr" :
        return sum_axis(ax[1], subst_axis(p, {ax: ax[1]})) if ax[1] not in p.axes() else _sum_axis(ax, p)
    return _sum_axis(ax, p)


def _sum_axis(ax, p):
    if ax[0] == "one":
        return p
    out = PZERO
    for mono, c in p.m.items():
        inside, outside = [], []
        for i, e in mono:
            (inside if _depends(Atom.byid[i], ax) else outside).append((i, e))
        o = Poly({tuple(outside): c})
        if not inside:
            out = add(out, mul(o, axis_len(ax)))
        else:
            P = Poly({tuple(inside): C1})
            a = atom("sum", (ax, P), (), real=P.all_real(), nonneg=False)
            out = add(out, mul(o, patom(a)))
    return out


def _depends(a, ax):
    return ax in atom_axes(a)


_subst_cache = {}


_mp_ids = {}
_atom_subst = {}


class Mp(dict):
    """A substitution with an identity, so that results can be remembered."""
    __slots__ = ("id",)

    def __init__(self, d):
        dict.__init__(self, d)
        key = tuple(sorted(((ordk(k), k, v) for k, v in d.items()), key=lambda z: z[0]))
        self.id = _mp_ids.setdefault(key, len(_mp_ids))


def subst_axis(p, mp):
    """Rename free axes of a Poly. mp: dict axis -> axis (or ('ix', Poly))."""
    if not p.m:
        return p
    if not isinstance(mp, Mp):
        mp = Mp(mp)
    key = (p, mp.id)
    r = _subst_cache.get(key)
    if r is not None:
        return r
    out = _subst(p, mp)
    _subst_cache[key] = out
    return out


def _subst(p, mp):
    axs = p.axes()
    if not any(k in axs for k in mp):
        return p
    out = PZERO
    for mono, c in p.m.items():
        t = None
        for i, e in mono:
            a = Atom.byid[i]
            q = subst_atom(a, mp)
            q = patom(a, e) if q is None else power(q, e)
            t = q if t is None else mul(t, q)
        t = PONE if t is None else t
        out = add(out, scale(t, c))
    return out


def subst_atom(a, mp):
    """None when unchanged."""
    ax = atom_axes(a)
    if not any(k in ax for k in mp):
        return None
    if not isinstance(mp, Mp):
        mp = Mp(mp)
    key = (a.id, mp.id)
    r = _atom_subst.get(key)
    if r is None:
        r = _atom_subst[key] = _subst_atom(a, mp)
    return r


def _subst_atom(a, mp):
    if a.kind == "exp":
        return exp(_subst(a.key[0], mp))
    if a.kind == "pow":
        B = _subst(a.key[0], mp)
        return patom(atom("pow", (B,), (), real=B.all_real(), nonneg=a.nonneg))
    if a.kind == "abs":
        return absval(_subst(a.key[0], mp))
    if a.kind == "arg":
        return angle(_subst(a.key[0], mp))
    if a.kind == "int":
        return floor_atom(_subst(a.key[0], mp))
    if a.kind == "bool":
        return comparison(a.key[0], _subst(a.key[1], mp))
    if a.kind == "fn":
        key = tuple(_subst(k, mp) if isinstance(k, Poly) else k for k in a.key)
        return patom(atom("fn", key, tuple(_sub1(x, mp) for x in a.axes), a.real, a.nonneg, a.integer))
    if a.kind == "sum":
        sax, P = a.key
        mp2 = {k: v for k, v in mp.items() if k != sax}
        hit = False
        for v in mp2.values():
            if v == sax or (v[0] == "ix" and sax in v[1].axes()):
                hit = True
        if hit:
            nb = ("pr", sax, "b") if sax[0] != "pr" else ("pr", sax[1], str(sax[2]) + "b")
            P = _subst(P, Mp({sax: nb}))
            sax = nb
        return sum_axis(sax, _subst(P, Mp(mp2)))
    if a.kind == "conj":
        return conj(subst_atom(a.key[0], mp) or patom(a.key[0]))
    if a.key == ("ix",) and a.kind == "sym":
        x = _sub1(a.axes[0], mp)
        return x[1] if x[0] == "ix" else ixsym(x)
    axes = tuple(_sub1(x, mp) for x in a.axes)
    r = _looked_up(a, axes)
    if r is not None:
        return r
    if a.kind == "op" and a.key[0] == "pos" and len(axes) == 1:
        t = a.key[1]
        if axes[0] == t:
            return ixsym(t)
        if t in mp and (axes[0] == mp[t] or within(mp[t], axes[0])):
            return possym(mp[t], axes[0])
    return patom(atom(a.kind, a.key, axes, a.real, a.nonneg, a.integer))


def comparison(op, d):
    """0/1 value of  d op 0  (op lt or eq)."""
    c = d.const()
    if c is not None:
        if op == "eq":
            return pconst(int(c[0] == 0 and c[1] == 0))
        if op == "lt":
            return pconst(int(c[0] < 0))
    k, c = _lead(d)
    if op == "eq":
        d = scale(d, _cinv(c))
    elif c[1] == 0:
        d = scale(d, (Fraction(1) / abs(c[0]), ZERO))
    return patom(atom("bool", (op, d), tuple(sorted(d.axes(), key=ordk)), nonneg=True, integer=True))


def within(t, ax):
    """Is ax derived from t?"""
    while isinstance(ax, tuple) and ax and ax[0] in ("perm", "pr", "sel", "flt"):
        ax = ax[1]
        if ax == t:
            return True
    return False


def _looked_up(a, axes):
    """table[position of k in table] is k."""
    if len(axes) != 1 or axes[0][0] != "ix" or a.kind != "sym":
        return None
    P = axes[0][1]
    if len(P.m) != 1:
        return None
    (mono, c), = P.m.items()
    if c != C1 or len(mono) != 1 or mono[0][1] != 1:
        return None
    b = Atom.byid[mono[0][0]]
    if b.kind != "op" or b.key[0] != "idx":
        return None
    kt, kid = b.key[1], b.key[2]
    k = kt.single() if isinstance(kt, Term) else None
    if k is None or len(k.m) != 1:
        return None
    (mono, c), = k.m.items()
    if c != C1 or len(mono) != 1 or mono[0][1] != 1:
        return None
    t = Atom.byid[mono[0][0]]
    if t.kind != a.kind or t.key != a.key or len(t.axes) != 1:
        return None
    if isinstance(kid, Term):
        return kid.single()
    return opaque("const", (repr(kid),))


def _sub1(x, mp):
    if x in mp:
        return mp[x]
    if isinstance(x, tuple) and x and x[0] == "ix":
        return ixaxis(_subst(x[1], mp))
    return x


def _ax_atoms(a, f, memo):
    if not any(isinstance(x, tuple) and x and x[0] == "ix" for x in a.axes):
        return a.axes
    return tuple(ixaxis(subst_atoms(x[1], f, memo)) if isinstance(x, tuple) and x and x[0] == "ix" else x for x in a.axes)


def subst_atoms(p, f, memo=None):
    """Replace atoms: f(atom) -> Poly or None; recurses into function atoms."""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    out = PZERO
    for mono, c in p.m.items():
        t = pconst(1)
        for i, e in mono:
            a = Atom.byid[i]
            r = f(a)
            if r is None:
                if a.kind == "exp":
                    r = exp(subst_atoms(a.key[0], f, memo))
                elif a.kind == "pow":
                    B = subst_atoms(a.key[0], f, memo)
                    r = None
                    t = mul(t, power(B, Fraction(e)) if B != a.key[0] else patom(a, e))
                    continue
                elif a.kind == "abs":
                    r = absval(subst_atoms(a.key[0], f, memo))
                elif a.kind == "arg":
                    r = angle(subst_atoms(a.key[0], f, memo))
                elif a.kind == "int":
                    r = floor_atom(subst_atoms(a.key[0], f, memo))
                elif a.kind == "sum":
                    # the index of the sum itself is not a free occurrence
                    r = patom(a) if a.key[0] == getattr(f, "bound", 0) else sum_axis(a.key[0], subst_atoms(a.key[1], f, memo))
                elif a.kind == "conj":
                    b = a.key[0]
                    q = subst_atoms(patom(b), f, memo)
                    r = conj(q) if q != patom(b) else patom(a)
                elif a.kind == "fn":
                    key = tuple(subst_atoms(k, f, memo) if isinstance(k, Poly) else k for k in a.key)
                    r = patom(atom("fn", key, _ax_atoms(a, f, memo), a.real, a.nonneg, a.integer))
                else:
                    axes = _ax_atoms(a, f, memo)
                    if axes == a.axes:
                        r = patom(a)
                    else:
                        r = _looked_up(a, axes)
                        if r is None:
                            r = patom(atom(a.kind, a.key, axes, a.real, a.nonneg, a.integer))
            t = mul(t, power(r, e))
        out = add(out, scale(t, c))
    memo[p] = out
    return out


def diff(p, a0):
    """Derivative of p with respect to the real atom a0; None if not decidable."""
    out = PZERO
    for mono, c in p.m.items():
        for j, (i, e) in enumerate(mono):
            a = Atom.byid[i]
            d = datom(a, a0)
            if d is None:
                return None
            if d.is_zero():
                continue
            rest = Poly({tuple((x, y) for k, (x, y) in enumerate(mono) if k != j): c})
            t = mul(rest, mul(scale(power(patom(a), e - 1 if e != 1 else 0) if e != 1 else PONE, (Fraction(e), ZERO)), d))
            out = add(out, t)
    return out


def datom(a, a0):
    if a is a0:
        return PONE
    if a.kind == "int" or a.kind == "fn" and a.key and a.key[0] in ("trunc", "rint", "floor", "ceil", "sign"):
        return PZERO  # piecewise constant
    if a.kind == "exp":
        d = diff(a.key[0], a0)
        return None if d is None else mul(patom(a), d)
    if a.kind == "pow":
        # atom is B (the exponent is applied outside)
        return diff(a.key[0], a0)
    if a.kind == "sum":
        d = diff(a.key[1], a0)
        return None if d is None else sum_axis(a.key[0], d)
    if mentions(a, a0):
        return None
    return PZERO


def mentions(a, a0, seen=None):
    if a is a0:
        return True
    for k in a.key:
        if isinstance(k, Poly):
            if any(mentions(x, a0) for x in k.atoms()):
                return True
        elif isinstance(k, Atom):
            if mentions(k, a0):
                return True
        elif isinstance(k, tuple):
            if _tuple_mentions(k, a0):
                return True
    return any(_tuple_mentions(x, a0) for x in a.axes if isinstance(x, tuple))


def _tuple_mentions(k, a0):
    for x in k:
        if isinstance(x, Poly):
            if any(mentions(y, a0) for y in x.atoms()):
                return True
        elif isinstance(x, Atom):
            if mentions(x, a0):
                return True
        elif isinstance(x, (tuple, frozenset)):
            if _tuple_mentions(x, a0):
                return True
    return False


def clear_denominators(p):
    """Multiply out 'pow' atoms with negative integer exponents."""
    for _ in range(12):
        worst = None
        for mono in p.m:
            for i, e in mono:
                a = Atom.byid[i]
                if a.kind == "pow" and e < 0:
                    n = int(-e) if isinstance(e, int) else None
                    if n is None:
                        n = int(-e) + 1
                    if worst is None or n > worst[1]:
                        worst = (a, n)
        if worst is None:
            return p
        a, n = worst
        out = PZERO
        B = a.key[0]
        for mono, c in p.m.items():
            d = dict(mono)
            e = d.pop(a.id, 0)
            ne = e + n
            t = Poly({tuple(sorted(d.items())): c})
            if ne:
                if isinstance(ne, int) and ne > 0:
                    t = mul(t, ipow(B, ne))
                else:
                    t = mul(t, patom(a, ne))
            out = add(out, t)
        p = out
    return p


def equal(a, b):
    if a == b:
        return True
    d = sub(a, b)
    if d.is_zero():
        return True
    # squares of abs() reduced already; clear 1/P atoms
    d = clear_denominators(d)
    if d.is_zero():
        return True
    # abs atoms with negative exponents
    d2 = clear_abs(d)
    return d2.is_zero()


def clear_abs(p):
    for _ in range(6):
        worst = None
        for mono in p.m:
            for i, e in mono:
                a = Atom.byid[i]
                if e < 0:
                    worst = (a, -e)
        if worst is None:
            return p
        p = mul(p, patom(*worst))
    return p


# ----------------------------------------------------------------- Term
class Term:
    """Guarded alternatives."""

    __slots__ = ("alts", "_h")

    def __init__(self, alts):
        self.alts = alts
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.alts)
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Term) and self.alts == o.alts)

    def single(self):
        return self.alts[0][1] if len(self.alts) == 1 else None

    def polys(self):
        return [p for _, p in self.alts]

    def axes(self):
        s = set()
        for _, p in self.alts:
            s |= p.axes()
        return s

    def rconst(self):
        p = self.single()
        return None if p is None else p.rconst()

    def __repr__(self):
        if len(self.alts) == 1 and not self.alts[0][0]:
            return repr(self.alts[0][1])
        return "{" + " | ".join(f"{gstr(g)}: {p!r}" for g, p in self.alts) + "}"


def gstr(g):
    return ",".join(f"{short(k)}={v}" for k, v in sorted(g, key=ordk))


NOG = frozenset()


def T(p):
    return Term(((NOG, p),))


def consistent(g1, g2):
    if not g1 or not g2:
        return True
    d = dict(g1)
    for k, v in g2:
        if d.get(k, v) != v:
            return False
    return True


def key_values(k):
    """All values of a guard key, or None when not enumerable."""
    if k[0] == "seg":
        segs = segments(k[1])
        return None if segs is None else tuple(range(len(segs)))
    if k[0] == "c":
        return (False, True)
    if k[0] == "ok":
        return (0, 1)
    return None


def merge_guards(gs):
    """Equivalent shorter list of guards (absorption, complete case splits)."""
    gs = list(dict.fromkeys(gs))
    work = True
    while work and len(gs) > 1:
        work = False
        gs = [g for i, g in enumerate(gs) if not any((h < g) or (h == g and j < i) for j, h in enumerate(gs))]
        for k in sorted({k for g in gs for k, _ in g}, key=ordk):
            vals = key_values(k)
            if vals is None:
                continue
            groups = {}
            for g in gs:
                d = dict(g)
                if k in d:
                    v = d.pop(k)
                    groups.setdefault(frozenset(d.items()), {})[v] = g
            for rest, vs in groups.items():
                if all(v in vs for v in vals):
                    gs = [g for g in gs if g not in vs.values()] + [rest]
                    work = True
            if work:
                break
    if len(gs) > MAXALT:
        # less specific, but still true
        gs = [frozenset.intersection(*gs)]
    return gs


def mkterm(alts):
    seen = {}
    for g, p in alts:
        seen.setdefault(p, []).append(g)
    if len(seen) == 1:
        (p, gs), = seen.items()
        if len(gs) == 1:
            return Term(((gs[0], p),))
        return T(p)
    out = []
    for p, gs in seen.items():
        # keep only minimal guards; if an unguarded alternative exists keep it
        gs = merge_guards(gs) if len(gs) > 1 else gs
        for g in gs:
            out.append((g, p))
    out.sort(key=lambda gp: (sorted(ordk(x) for x in gp[0]), _ord(gp[1])))
    if len(out) > MAXALT:
        axes = set()
        real_ = True
        for _, p in out:
            axes |= p.axes()
            real_ = real_ and p.all_real()
        return T(opaque("phi", (tuple(p for _, p in out),), tuple(sorted(axes, key=ordk)), real=real_))
    return Term(tuple(out))


def tmap(f, *ts):
    if all(len(t.alts) == 1 and not t.alts[0][0] for t in ts):
        return T(f(*[t.alts[0][1] for t in ts]))
    acc = [(NOG, ())]
    for t in ts:
        nxt = []
        for g, ps in acc:
            for g2, p in t.alts:
                if consistent(g, g2):
                    nxt.append((g | g2, ps + (p,)))
        acc = nxt
        if len(acc) > 4 * MAXALT:
            axes = set()
            for t_ in ts:
                axes |= t_.axes()
            return T(opaque("phi*", ts, tuple(sorted(axes, key=ordk)), real=False))
    return mkterm([(g, f(*ps)) for g, ps in acc])


def tjoin(a, ga, b, gb):
    if a == b:
        return a
    alts = [(g | ga, p) for g, p in a.alts if consistent(g, ga)] + [
        (g | gb, p) for g, p in b.alts if consistent(g, gb)]
    return mkterm(alts)


def tprune(t, guards):
    if len(t.alts) == 1 or not guards:
        return t
    d = dict(guards)
    keep = []
    changed = False
    for g, p in t.alts:
        ok = True
        ng = []
        for k, v in g:
            if k in d:
                if d[k] != v:
                    ok = False
                    break
                changed = True
            else:
                ng.append((k, v))
        if ok:
            keep.append((frozenset(ng), p))
        else:
            changed = True
    if not changed or not keep:
        return t
    return mkterm(keep)


def tsubst(t, mp):
    """Rename free axes of a Term, including those its guards speak about."""
    if not mp:
        return t
    alts = []
    for g, p in t.alts:
        g = gsubst(g, mp)
        if g is not None:
            alts.append((g, subst_axis(p, mp)))
    return mkterm(alts)


def gsubst(g, mp):
    if not g:
        return g
    out = []
    for k, v in g:
        if k[0] == "seg" and k[1] in mp:
            r = mp[k[1]]
            k = ("seg", r) if r[0] != "ix" else ("segx", k[1], r)
        elif k[0] == "segp" and k[1] in mp and mp[k[1]][0] in ("perm", "pr"):
            k = ("segp", mp[k[1]])
        elif k[0] == "segp" and k[1] in mp and mp[k[1]][0] == "ix":
            k = ("segpx", k[1], mp[k[1]])
        elif k[0] == "c" and isinstance(k[1], Poly):
            q = subst_axis(k[1], mp)
            c = q.rconst()
            if c is not None:
                if isinstance(v, bool) and c in (0, 1):
                    if bool(c) != v:
                        return None
                    continue
            k = ("c", q)
        elif k[0] == "ok" and k[1] in mp:
            k = ("ok", mp[k[1]], k[2])
        out.append((k, v))
    return frozenset(out)


def rename_axis(t, a, b):
    """Term over axis a -> the same element seen along axis b (same layout)."""
    if a == b:
        return t
    ia, ib = inner_axes(a), inner_axes(b)
    if len(ia) == len(ib):
        mp = {x: y for x, y in zip(ia, ib) if x != y and x != ONEAX}
    else:
        mp = {a: b}
    return tsubst(t, mp)


def rename_axes(t, old, new):
    """rename_axis for several axes at once (a target may be another's source)."""
    mp = {}
    for a, b in zip(old, new):
        if a == b or a == ONEAX:
            continue
        ia, ib = inner_axes(a), inner_axes(b)
        if len(ia) == len(ib):
            mp.update({x: y for x, y in zip(ia, ib) if x != y and x != ONEAX})
        else:
            mp[a] = b
    return tsubst(t, mp)


def closed(key, axes):
    """The terms of a key as functions of the axes of the atom."""
    mp = {x: ("base", f"axis {n}") for n, x in enumerate(x for x in axes if x != ONEAX)}

    def go(k):
        if isinstance(k, Term):
            return tsubst(k, mp)
        if isinstance(k, tuple):
            return tuple(go(x) for x in k)
        return k

    return tuple(go(k) for k in key)


def seg_alts(t, ax):
    """Alternatives of t by segment of ax: list of Terms, or None when t is
    not distinguished by segment."""
    segs = segments(ax)
    if segs is None:
        return None
    key = ("seg", ax)
    out = []
    off = PZERO
    for k, s in enumerate(segs):
        alts = []
        idx = add(off, ixsym(s))
        mp = {ax: ixaxis(idx)}
        for g, p in t.alts:
            d = dict(g)
            if d.get(key, k) != k:
                continue
            d.pop(key, None)
            alts.append((frozenset(d.items()), subst_axis(p, mp)))
        out.append((s, mkterm(alts) if alts else None))
        off = add(off, axis_len(s))
    return out


def has_seg(t, ax):
    key = ("seg", ax)
    return any(k == key for g, _ in t.alts for k, _v in g)


def flat(t, ax):
    """t with its case distinctions that depend on the position along ax
    written as 0/1 factors."""
    inner = set(inner_axes(ax))

    def about(k):
        return k[0] == "c" and isinstance(k[1], Poly) and not inner.isdisjoint(k[1].axes())

    if not any(about(k) for g, _ in t.alts for k, _v in g):
        return t
    groups = {}
    for g, p in t.alts:
        c = frozenset(x for x in g if about(x[0]))
        groups.setdefault(g - c, []).append((c, p))
    alts = []
    for rest, xs in groups.items():
        # exclusive cases only
        for n, (c, _) in enumerate(xs):
            d = dict(c)
            for c2, _ in xs[:n]:
                if not any(k in d and d[k] != v for k, v in c2):
                    return None
        tot = PZERO
        for c, p in xs:
            for k, v in sorted(c, key=ordk):
                if not isinstance(v, bool):
                    return None
                p = mul(p, k[1] if v else sub(PONE, k[1]))
            tot = add(tot, p)
        alts.append((rest, tot))
    return mkterm(alts)


def tsum(t, ax):
    """Sum of a Term over axis ax."""
    f = flat(t, ax)
    if f is None:
        return T(opaque("unk", ("sum of cases",)))
    t = f
    if ax[0] in ("perm",):
        # a sum does not depend on the order
        new = ax[1]
        base = new
        while base[0] == "perm":
            base = base[1]
        key = ("segp", ax)
        if any(k == key for g, _ in t.alts for k, _v in g):
            to = ixsym(base)

            def f(a):
                return to if a.kind == "op" and a.key[0] == "pos" and a.axes == (ax,) and a.key[1] == base else None

            alts = []
            for g, p in t.alts:
                g2 = frozenset((("seg", base), v) if k == key else (k, v) for k, v in g)
                p = subst_atoms(p, f)
                g2 = gsubst(g2, {ax: base})
                if g2 is not None:
                    alts.append((g2, subst_axis(p, {ax: base})))
            return tsum(mkterm(alts), base)
        t = tsubst(t, {ax: new})
        return tsum(t, new)
    if has_seg(t, ax):
        tot = T(PZERO)
        for s, ts in seg_alts(t, ax):
            if ts is None:
                return None
            part = tsum(ts, s)
            if part is None:
                return None
            tot = tmap(add, tot, part)
        return tot
    return tmap(lambda p: sum_axis(ax, p), t)


def expand_sums(p, limit=8):
    """Sums over short literal axes written out."""
    def f(a):
        if a.kind == "sum" and a.key[0][0] == "lit" and a.key[0][1] <= limit:
            ax, P = a.key
            out = PZERO
            for k in range(ax[1]):
                out = add(out, expand_sums(subst_axis(P, {ax: ("ix", pconst(k))}), limit))
            return out
        return None

    return subst_atoms(p, f)


# ------------------------------------------------------- deciding equality
import cmath
import hashlib
import math
import random


class Model:
    """A random interpretation of the atoms; every abstract axis has length 3.
    Two value numbers that disagree in an interpretation denote different
    functions of the opaque quantities (Schwartz-Zippel)."""

    L = 3

    def __init__(self, seed, wide=False, jitter=0.0):
        self.seed = seed
        self.jitter = jitter  # relative disturbance of the quantities
        self.wide = wide  # quantities of very different size
        self.memo = {}
        self.amemo = {}

    def rnd(self, key, a):
        v = self.rnd0(key, a)
        if self.jitter and not a.integer:
            h = hashlib.blake2b(repr(("j", key)).encode(), digest_size=4).digest()
            v = v * (1 + self.jitter * (int.from_bytes(h, "big") / 2.0**32 - 0.5))
        return v

    def rnd0(self, key, a):
        h = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=16).digest()
        x = int.from_bytes(h[:8], "big") / 2.0**64
        y = int.from_bytes(h[8:], "big") / 2.0**64
        if a.integer:
            if a.kind == "sym" and a.key[0] in ("t", "tr"):  # a time in ms since 1970: some days
                return float(int(1e8 * (1 + 12 * x)))
            return float(1 + int(x * 9))
        w = 1.0
        if self.wide:
            z = int(hashlib.blake2b(repr((self.seed, key, "w")).encode(), digest_size=4).hexdigest(), 16) / 2.0**32
            w = 10 ** (4 * z - 2)
        if a.nonneg:
            return w * (0.3 + 1.4 * x)
        v = w * (0.3 + 1.2 * x) * (1 if h[0] & 1 else -1)
        if a.real:
            return v
        return complex(v, w * (0.3 + 1.2 * y) * (1 if h[1] & 1 else -1))

    def length(self, ax):
        if ax[0] == "one":
            return 1
        if ax[0] == "lit":
            return ax[1]
        if ax[0] == "cat":
            return sum(self.length(x) for x in ax[1])
        if ax[0] in ("perm", "pr"):
            return self.length(ax[1])
        if ax[0] in ("sel", "flt"):
            return len(self.elements(ax))
        if ax[0] == "anon" and isinstance(ax[1], Poly):
            n = _rp(self.ev(ax[1], {}))
            if abs(n - round(n)) < 1e-6 and 1 <= round(n) <= 12:
                return round(n)
        return self.L

    def elements(self, ax, idx=None):
        """Positions on the underlying axis of the elements of ax."""
        if ax[0] not in ("perm", "pr", "sel", "flt"):
            return range(self.length(ax))
        k = ("el", ax)
        v = self.amemo.get(k)
        if v is None:
            child = self.elements(ax[1]) if ax[1][0] != "ix" else range(self.L)
            v = self.amemo[k] = [child[n] for n in self.parents(ax)]
        return v

    def parents(self, ax):
        """Positions on ax[1] of the elements of ax."""
        k = ("pp", ax)
        v = self.amemo.get(k)
        if v is None:
            n = len(self.elements(ax[1])) if ax[1][0] != "ix" else self.L
            child = list(range(n))
            if ax[0] == "pr":
                v = child
            elif ax[0] == "perm":
                v = self.permuted(ax, child)
            elif ax[0] == "sel":
                el = self.elements(ax[1])
                v = [x for x in child if not any(self.hash(("sel", repr(tok), el[x])) % 16 == 0 for tok in ax[2])] or child[:1]
            else:
                v = self.filtered(ax, child)
            self.amemo[k] = v
        return v

    def degenerate(self, *ps):
        """Is a selection in the terms empty in this interpretation?"""
        return any(ax[0] in ("flt", "sel") and not len(self.elements(ax, {})) for p in ps for a in p.atoms() for ax in deep_axes(a))

    def hash(self, x):
        return int(hashlib.blake2b(repr((self.seed, x)).encode(), digest_size=4).hexdigest(), 16)

    def permuted(self, ax, child):
        how = ax[2] if len(ax) > 2 else None
        if how == ("rev",):
            return child[::-1]
        t = how[1] if isinstance(how, tuple) and len(how) == 2 and how[0] == "argsort" else None
        if isinstance(t, Term) and t.single() is not None:
            q = t.single()
            own = [x for x in q.axes() if untag(x) == untag(ax[1])]
            key = [self.ev(q, {x: n for x in own + [ax[1]]}) for n in range(len(child))]
            if not any(isinstance(x, complex) and abs(x.imag) > 1e-9 * (1 + abs(x)) for x in key):
                key = [_rp(x) for x in key]
                return [child[n] for n in sorted(range(len(child)), key=lambda n: (key[n], n))]
        h = self.sigax(ax)
        return [child[n] for n in sorted(range(len(child)), key=lambda n: self.hash((h, n)))]

    def filtered(self, ax, child):
        c = ax[2] if len(ax) > 2 else None
        p = c.single() if isinstance(c, Term) else c if isinstance(c, Poly) else None
        if p is not None:
            vs = [self.ev(p, {ax[1]: n}) for n in range(len(child))]
            if all(abs(v) < 1e-9 or abs(v - 1) < 1e-9 for v in vs):
                return [x for x, v in zip(child, vs) if abs(v) > 0.5]
        h = self.sigax(ax)
        return [x for x in child if self.hash((h, "flt", x)) % 2]

    def index(self, ax, idx):
        if ax[0] == "ix":
            v = self.ev(ax[1], idx)
            return self.r(v)
        if ax[0] == "one":
            return 0
        els = self.elements(ax, idx)
        n = self.position(ax, idx)
        return els[n] if n < len(els) else n

    def place(self, ax, idx):
        if ax[0] == "ix":
            v = _rp(self.ev(ax[1], idx))
            return round(v) if abs(v - round(v)) < 1e-6 else -1
        return 0 if ax[0] == "one" else self.position(ax, idx)

    def position(self, ax, idx):
        if ax in idx:
            return idx[ax]
        if ax[0] == "perm":  # the same place in a reordered array
            return self.position(ax[1], {})
        k = ("ax", ax)
        v = self.amemo.get(k)
        if v is None:
            h = int(hashlib.blake2b(repr((self.seed, self.sigax(ax))).encode(), digest_size=4).hexdigest(), 16)
            v = self.amemo[k] = h % (len(self.elements(ax, idx)) or self.L)
        return v

    def sigax(self, ax):
        r = self.amemo.get(ax)
        if r is None:
            r = self.amemo[ax] = repr(self.sig(ax))
        return r

    def r(self, v):
        if isinstance(v, complex):
            if abs(v.imag) < 1e-9 * (1 + abs(v.real)):
                return "%.7e" % (v.real + 0.0)
            return "%.7e,%.7e" % (v.real, v.imag)
        return "%.7e" % (v + 0.0)

    def sig(self, x, idx=None):
        if isinstance(x, Poly):
            return self.r(self.ev(x, idx or {}))
        if isinstance(x, Term):
            return ("T",) + tuple(sorted((repr(sorted((self.sig(k, idx), v) for k, v in g)), self.sig(p, idx)) for g, p in x.alts))
        if isinstance(x, Atom):
            return self.r(self.at(x, idx or {}))
        if isinstance(x, tuple):
            return tuple(self.sig(y, idx) for y in x)
        if isinstance(x, frozenset):
            return tuple(sorted(repr(self.sig(y, idx)) for y in x))
        return repr(x)

    def ev(self, p, idx):
        key = (p, frozenset((k, v) for k, v in idx.items() if k in p.axes())) if idx else (p, None)
        r = self.memo.get(key)
        if r is not None:
            return r
        tot = 0.0
        for mono, c in p.m.items():
            v = complex(float(c[0]), float(c[1])) if c[1] else float(c[0])
            for i, e in mono:
                b = self.at(Atom.byid[i], idx)
                v = v * self.pw(b, e)
            tot = tot + v
        self.memo[key] = tot
        return tot

    def pw(self, b, e):
        if e == 1:
            return b
        if e < 0 and abs(b) < 1e-25:
            raise OverflowError("pole")
        if isinstance(e, Fraction):
            if isinstance(b, complex) or b < 0:
                return complex(b) ** float(e)
            return b ** float(e)
        return b**e

    def at(self, a, idx):
        ax = atom_axes(a)
        key = (a, frozenset((k, v) for k, v in idx.items() if k in ax)) if idx and ax else (a, None)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._at(a, idx)
        return r

    def reduced(self, a, idx):
        """Values of the elements a reduction atom is over, or None."""
        out = []
        for q in a.key[1:]:
            if not isinstance(q, Poly):
                continue
            bound = [x for x in q.axes() if bound_tag(x)]
            if len(bound) > 1:
                return None
            for n in range(len(self.elements(bound[0], idx))) if bound else (0,):
                v = self.ev(q, {**idx, bound[0]: n} if bound else idx)
                if isinstance(v, complex):
                    if abs(v.imag) > 1e-6 * (1 + abs(v)):
                        return None
                    v = v.real
                out.append(v)
        return out

    def evt(self, t, idx):
        """The alternative of a term that the elements at idx have."""
        out = None
        for g, p in t.alts:
            for k, v in g:
                if k[0] != "seg" or k[1] not in idx or not isinstance(v, int):
                    return None
                if k[1][0] == "cat":
                    return None
                if idx[k[1]] != v:
                    break
            else:
                if out is not None:
                    return None
                out = p
        return None if out is None else self.ev(out, idx)

    def matrix(self, t, rows, cols, idx):
        out = []
        for i in range(len(self.elements(rows, idx)) if rows else 1):
            r = []
            for j in range(len(self.elements(cols, idx)) if cols else 1):
                v = self.evt(t, {**idx, **({rows: i} if rows else {}), **({cols: j} if cols else {})})
                if v is None:
                    return None
                r.append(v)
            out.append(r)
        return out

    def _at(self, a, idx):
        k = a.kind
        if k == "sym" and a.key == ("pi",):
            return math.pi
        if k == "sym" and a.key == ("ix",):
            ax = a.axes[0]
            return float(self.index(ax, idx) if ax[0] in ("ix", "one") else self.position(ax, idx))
        if k == "sym" and a.key[0] == "len":
            return float(self.length(a.key[1]))
        if k == "op" and a.key[0] == "pos" and len(a.axes) == 1 and a.axes[0][0] not in ("ix", "one"):
            ax, n = a.axes[0], self.position(a.axes[0], idx)
            while ax != a.key[1] and ax[0] in ("perm", "pr", "sel", "flt"):
                v = self.parents(ax)
                n = v[n] if n < len(v) else n
                ax = ax[1]
            return float(n)
        if k == "op" and a.key[0] in ("let", "big:add", "big:mul"):
            vals = [self.ev(q, idx) for q in a.key[1:]]
            if a.key[0] == "big:add":
                return vals[0] + vals[1]
            if a.key[0] == "big:mul":
                return vals[0] * vals[1]
            return vals[0]
        if k == "op" and a.key[0] in CUM and len(a.axes) == 1 and isinstance(a.key[1], Term) and a.key[1].single() is not None:
            q = a.key[1].single()
            bound = [x for x in q.axes() if bound_tag(x)]
            if len(bound) <= 1:
                n = self.position(a.axes[0], idx)
                return CUM[a.key[0]]([self.ev(q, dict(idx, **{}) if not bound else {**idx, bound[0]: j}) for j in range(n + 1)])
        if k == "op" and a.key[0] == "isbad":
            # not a number, infinite, or finite
            n = self.hash(("bad", self.r(self.ev(a.key[2], idx)))) % 4
            return float(any(n == ("nan", "inf").index(x) for x in a.key[1] if x in ("nan", "inf")))
        if k == "op" and a.key == ("delta",):
            return float(self.index(a.axes[0], idx) == self.index(a.axes[1], idx))
        if k == "op" and a.key[0] in MATRIX:
            v = MATRIX[a.key[0]](self, a, idx)
            if v is not None:
                return v
        if k in ("sym", "op"):
            ii = tuple(self.index(x, idx) for x in a.axes)
            ii = tuple(x if isinstance(x, str) else "%.7e" % x for x in ii)
            return self.rnd((k, self.sig(a.key, idx), ii), a)
        if k == "exp":
            try:
                return cmath.exp(self.ev(a.key[0], idx))
            except OverflowError:
                return 1e30
        if k == "pow":
            v = self.ev(a.key[0], idx)
            return v
        if k == "abs":
            return abs(self.ev(a.key[0], idx))
        if k == "arg":
            return cmath.phase(complex(self.ev(a.key[0], idx)))
        if k == "int":
            v = self.ev(a.key[0], idx)
            return float(math.floor(v.real if isinstance(v, complex) else v))
        if k == "conj":
            v = self.at(a.key[0], idx)
            return v.conjugate() if isinstance(v, complex) else v
        if k == "sum":
            ax, P = a.key
            tot = 0.0
            for n in range(len(self.elements(ax, idx))):
                d = dict(idx)
                d[ax] = n
                tot = tot + self.ev(P, d)
            return tot
        if k == "bool":
            v = self.ev(a.key[1], idx)
            v = v.real if isinstance(v, complex) else v
            return float({"lt": v < -1e-9, "le": v <= 1e-9, "eq": abs(v) < 1e-9}[a.key[0]])
        if k == "fn":
            vals = [self.ev(q, idx) if isinstance(q, Poly) else q for q in a.key[1:]]
            if a.key[0] in RED:
                xs = self.reduced(a, idx)
                if xs:
                    return RED[a.key[0]](xs)
            f = FN.get(a.key[0])
            if f is not None:
                try:
                    return f(*vals)
                except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                    pass
            return self.rnd(("fn", a.key[0], tuple(self.r(v) if isinstance(v, (float, complex)) else repr(v) for v in vals),
                             tuple(self.index(x, idx) for x in a.axes)), a)
        return self.rnd((k, self.sig(a.key, idx)), a)


def inverse(A):
    """Inverse by elimination; None when A is ill-conditioned."""
    n = len(A)
    if any(len(r) != n for r in A):
        return None
    M = [list(r) + [float(i == j) for j in range(n)] for i, r in enumerate(A)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if abs(M[p][i]) < 1e-200:
            return None
        M[i], M[p] = M[p], M[i]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i] / M[i][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    X = [[x / M[i][i] for x in M[i][n:]] for i in range(n)]
    size = lambda B: sum(abs(x) ** 2 for r in B for x in r) ** 0.5
    return X if size(A) * size(X) < 1e5 else None


def _bounds(t):
    return {x for x in t.axes() if bound_tag(x)} | {k[1] for g, _ in t.alts for k, _v in g if k[0] == "seg" and bound_tag(k[1])}


def m_inv(m, a, idx):
    if len(a.key) != 2 or len(a.axes) != 2 or not isinstance(a.key[1], Term):
        return None
    X = m.amemo.get(a.key)
    if X is None:
        X = False
        base = {untag(x) for x in _bounds(a.key[1])}
        if len(base) == 1:
            b = base.pop()
            A = m.matrix(a.key[1], retag(b, "bd"), retag(b, "bd2"), {})
            if A is not None:
                X = inverse(A) or False
        m.amemo[a.key] = X
    if not X:
        return None
    i, j = (m.place(x, idx) for x in a.axes)
    return X[i][j] if 0 <= i < len(X) and 0 <= j < len(X) else None


MATRIX = {"inv": m_inv}


def _rp(x):
    return x.real if isinstance(x, complex) else x


def _round(x, n):
    return complex(round(x.real, n), round(x.imag, n)) if isinstance(x, complex) else round(x, n)


FN = {
    "log": lambda x: cmath.log(x) if isinstance(x, complex) or x <= 0 else math.log(x),
    "tanh": lambda x: cmath.tanh(x) if isinstance(x, complex) else math.tanh(x),
    "max": lambda x, y: max(_rp(x), _rp(y)),
    "min": lambda x, y: min(_rp(x), _rp(y)),
    "sign": lambda x: float((_rp(x) > 0) - (_rp(x) < 0)),
    "copysign": lambda x, y: math.copysign(_rp(x), _rp(y)),
    "trunc": lambda x: float(math.trunc(_rp(x))),
    "rint": lambda x: float(round(_rp(x))),
    "round": lambda x, n: _round(x, int(_rp(n))),
    "where": lambda c, x, y: x if _rp(c) else y,
    "pow": lambda x, y: complex(x) ** y if isinstance(x, complex) or x < 0 else x**y,
}

def _median(xs):
    xs = sorted(xs)
    n = len(xs)
    return (xs[n // 2] + xs[(n - 1) // 2]) / 2


def _var(xs, dd=0):
    m = sum(xs) / len(xs)
    return sum((x - m) ** 2 for x in xs) / (len(xs) - dd) if len(xs) > dd else 1e30


RED = {
    "red:max": max,
    "red:min": min,
    "red:median": _median,
    "red:var": _var,
    "red:std": lambda xs: math.sqrt(_var(xs)),
    "red:prod": math.prod,
    "red:any": lambda xs: float(any(abs(x) > 1e-9 for x in xs)),
    "red:all": lambda xs: float(all(abs(x) > 1e-9 for x in xs)),
}
CUM = {"cum": sum, "cumprod": math.prod}

# functions between which identities hold that the interpretations do not know
FAMILIES = [
    {"inv", "pinv", "lstsq", "lstsq:rank", "lstsq:rss", "lstsq:sv", "solve", "svd:U", "svd:S", "svd:V", "cholesky", "eigvals", "eigvalsh", "eigh", "eig", "det", "linalg.det", "qr", "linalg.qr", "norm", "matrix_power", "multi_dot", "spacing", "cond"},
    {"interp", "searchsorted:left", "searchsorted:right", "digitize"},
    {"fft.rfft", "fft.fft", "fft.ifft", "fft.irfft", "window", "lombscargle", "welch", "periodogram"},
    {"red:ptp", "red:max", "red:min"},
    {"red:var", "red:std"},
    {"nuniq", "uniq", "in?", "idx", "last", "pos"},
    {"log", "log1p", "log10", "log2", "expm1", "exp2", "sinh", "cosh", "tanh", "arctan", "arcsin", "arccos", "arcsinh", "arctanh", "arccosh", "sinc", "logaddexp", "cbrt"},
]
# functions that leave ordinary arguments as they are, or say that arguments are ordinary
GENTLE = {"nan_to_num", "isbad", "isclose", "real_if_close", "anybad", "badmask", "unk", "nextafter"}


def uninterpreted(x):
    return frozenset(a.key[0] for a in parts(x) if a.kind in ("op", "fn") and isinstance(a.key[0], str))


def real_axes(p, rooted=False):
    out = set()
    for x in p.axes():
        if x != ONEAX and not bound_tag(x):
            while rooted and x[0] in ("perm", "sel", "flt"):
                x = x[1]
            out.add(x)
    return out


def relaid(a, b):
    """b along the axes of a, where just one axis differs and has the same length."""
    x = set().union(*(real_axes(p) for _, p in a.alts)) if a.alts else set()
    y = set().union(*(real_axes(p) for _, p in b.alts)) if b.alts else set()
    x, y = x - y, y - x
    if len(x) == len(y) == 1:
        x, y = x.pop(), y.pop()
        n = axis_len(x)
        if x[0] != "perm" and y[0] != "perm" and n is not None and n == axis_len(y) and not has_seg(a, x) and not has_seg(b, y):
            return rename_axis(b, y, x)
    return b


def vague(p):
    """Selections of p by a mask of which nothing is known."""
    return {ax for a in p.atoms() for ax in deep_axes(a) if ax[0] == "sel" and any(isinstance(t, tuple) and t and t[0] == "?" for t in ax[2])}


def comparable(a, b):
    """May a difference of the interpretations be taken for a difference of the values?"""
    if imprecise(a) != imprecise(b):
        return False
    x, y = real_axes(a, True), real_axes(b, True)
    if x - y and y - x:  # elements of differently laid out arrays: which belongs to which is not known
        return False
    if vague(a) != vague(b):
        return False
    x, y = uninterpreted(a), uninterpreted(b)
    if "unk" in x or "unk" in y:
        return False
    if x == y:
        return True
    if (x ^ y) & GENTLE:
        return False
    return not any(x & f and y & f and x & f != y & f for f in FAMILIES)


_models = [Model(s) for s in range(5)]
_more = [Model(s, True) for s in range(5, 14)]


def filtering(p):
    """Does a selection by a condition occur in p?"""
    return any(ax[0] == "flt" for a in p.atoms() for ax in deep_axes(a))


_deep = {}


def deep_axes(a):
    r = _deep.get(a)
    if r is None:
        r = set()
        _deep[a] = r
        st = [a.key, a.axes]
        while st:
            x = st.pop()
            if isinstance(x, Poly):
                for b in x.atoms():
                    r |= deep_axes(b)
            elif isinstance(x, Term):
                st.extend(p for _, p in x.alts)
            elif isinstance(x, Atom):
                r |= deep_axes(x)
            elif isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in ("flt", "sel", "perm"):
                    r.add(x)
                st.extend(y for y in x if isinstance(y, (tuple, Poly, Term, Atom)))
    return r

IMPRECISE = ("mu", "phi", "phi*", "unk", "weak", "loop", "call", "zerodiv")


def imprecise(x, acc=None, seen=None):
    """Names of over-approximated quantities occurring in a term."""
    if acc is None:
        acc, seen = set(), set()
    if isinstance(x, (Poly, Atom, Term)):
        if x in seen:
            return acc
        seen.add(x)
    if isinstance(x, Poly):
        for mono in x.m:
            for i, _ in mono:
                imprecise(Atom.byid[i], acc, seen)
    elif isinstance(x, Atom):
        if x.kind == "op" and x.key[0] in IMPRECISE:
            acc.add((x.key[0],) + tuple(k for k in x.key[1:] if isinstance(k, str)))
        for k in x.key:
            imprecise(k, acc, seen)
        for k in x.axes:
            imprecise(k, acc, seen)
    elif isinstance(x, Term):
        for g, p in x.alts:
            imprecise(p, acc, seen)
            for k, _ in g:
                imprecise(k, acc, seen)
    elif isinstance(x, (tuple, frozenset)):
        for k in x:
            imprecise(k, acc, seen)
    return acc


def peq(a, b, guards=()):
    """True / False / None (unknown)."""
    if a == b:
        return True
    close = far = near = 0
    sel = filtering(a) or filtering(b)
    models = _models + (_more if sel else [])
    least = len(models)
    if sel or piecewise(a) or piecewise(b):  # every piece has to come up
        least += 12
        models = models + [extra(i) for i in range(12 if not sel else 80)]
    for m in models:
        if far >= 2 or close >= least:
            break
        try:
            if m.degenerate(a, b):
                continue
            ix = seats(m, guards) if guards else {}
            x, y = m.ev(a, ix), m.ev(b, ix)
        except (OverflowError, RecursionError):
            continue
        s = abs(x) + abs(y)
        if not s < 1e25:
            continue
        d = abs(x - y)
        if d <= 1e-7 * s + 1e-12:
            close += 1
        elif d > 1e-6 * s and solid(m, a, b, guards, x - y):
            far += 2 if d > 1e-3 * s else 1
        else:  # lost digits
            near += 1
    if far >= 2:
        return False if comparable(a, b) else None
    return True if close >= 3 and not far and near * 8 <= close else None


_twins = {}


def solid(m, a, b, guards, d):
    """Is the difference d of a and b in interpretation m more than lost digits?"""
    if not isinstance(m, Model) or type(m) is not Model:
        return True
    t = _twins.get(m)
    if t is None:
        t = _twins[m] = Model(m.seed, m.wide, 1e-11)
    try:
        ix = seats(t, guards) if guards else {}
        e = t.ev(a, ix) - t.ev(b, ix)
    except (OverflowError, RecursionError):
        return False
    return abs(e - d) < 0.1 * abs(d)


def seats(m, guards):
    """Index of the element that the guards are about, by axis."""
    out = {}
    for k, v in guards:
        if k[0] != "seg" or not isinstance(v, int):
            continue
        ax = k[1]
        if ax[0] == "lit":
            out[ax] = v
        elif ax[0] == "cat":
            n = m.position(ax[1][v], {}) if ax[1][v] != ONEAX else 0
            out[ax] = sum(m.length(x) for x in ax[1][:v]) + n
            if ax[1][v] != ONEAX:
                out[ax[1][v]] = n
    return out


_extra = []
EXTRA = 400


def extra(n):
    while len(_extra) <= n:
        _extra.append(Model(100 + len(_extra), wide=len(_extra) >= EXTRA))
    return _extra[n]


PIECEWISE = ("max", "min", "sign", "copysign", "where")


def piecewise(x):
    """Does the value of x depend on the outcome of a comparison?"""
    r = _piece.get(x)
    if r is None:
        r = False
        if isinstance(x, Atom):
            r = x.kind in ("bool", "abs") or x.kind == "fn" and x.key[0] in PIECEWISE or any(piecewise(k) for k in x.key if isinstance(k, (Poly, tuple)))
        elif isinstance(x, Poly):
            r = any(piecewise(a) for a in x.atoms())
        elif isinstance(x, tuple):
            r = any(piecewise(k) for k in x if isinstance(k, (Poly, tuple)))
        if not isinstance(x, tuple):
            _piece[x] = r
    return r


_piece = {}


def ordered(p):
    """p says only which of some quantities is larger."""
    return all(a.kind == "bool" and a.key[0] in ("lt", "le") for a in p.atoms())


_parts = {}


def parts(x):
    """All atoms that occur in x, at any depth."""
    r = _parts.get(x) if not isinstance(x, tuple) else None
    if r is None:
        r = set()
        if isinstance(x, Atom):
            r.add(x)
        for y in x.atoms() if isinstance(x, Poly) else x.key if isinstance(x, Atom) else [p for _, p in x.alts] if isinstance(x, Term) else x:
            if isinstance(y, (Poly, Atom, Term, tuple)):
                r |= parts(y)
        if not isinstance(x, tuple):
            _parts[x] = r
    return r


def ordering(guards, *ps):
    """The comparisons among guards that are about quantities of ps."""
    known = set().union(*(parts(p) for p in ps))
    return [(k, v) for k, v in guards if k[0] == "c" and isinstance(v, bool) and isinstance(k[1], Poly) and ordered(k[1]) and all(x in known for c in k[1].atoms() for x in c.key[1].atoms())]


def holds(m, guards):
    """Does the model m satisfy the comparisons among guards?"""
    for k, v in guards:
        x = m.ev(k[1], {})
        x = x.real if isinstance(x, complex) else x
        if (abs(x) > 1e-9) != v:
            return False
    return True


def geq(a, b, guards):
    """peq, where only values that satisfy the guards count."""
    r = peq(a, b, [g for g in guards if g[0][0] == "seg"])
    if r is True or not any(k[0] == "c" for k, _ in guards) or not (piecewise(a) or piecewise(b)):
        return r
    close = near = far = 0
    guards_ = guards
    guards = ordering(guards, a, b)
    for i in range(2 * EXTRA):
        m = extra(i)
        try:
            if not holds(m, guards) or m.degenerate(a, b):
                continue
            ix = seats(m, guards_)
            x, y = m.ev(a, ix), m.ev(b, ix)
        except (OverflowError, RecursionError):
            continue
        s = abs(x) + abs(y)
        if not s < 1e25:
            continue
        d = abs(x - y)
        if d <= 1e-7 * s + 1e-12:
            close += 1
        elif d > 1e-6 * s and solid(m, a, b, guards_, x - y):
            far += 2 if d > 1e-3 * s else 1
            if far >= 2:
                return False if comparable(a, b) else None
        else:
            near += 1
        if close + near >= 10:
            break
    return True if close >= 2 and not far and near * 8 <= close else None


def teq(a, b, under=()):
    """Compare two Terms alternative by alternative.
    Returns (verdict, witness)."""
    a, b = tprune(a, under), tprune(b, under)
    b = relaid(a, b)
    verdict = True
    for g1, p1 in a.alts:
        for g2, p2 in b.alts:
            if not consistent(g1, g2):
                continue
            r = geq(p1, p2, g1 | g2 | frozenset(under))
            if r is False:
                return False, (g1 | g2, p1, p2)
            if r is None:
                verdict = None
    return verdict, None


# --------------------------------------------------------------- printing
_SS = {}


def short(x):
    if isinstance(x, (tuple, frozenset)):
        r = _SS.get(x)
        if r is None:
            r = _SS[x] = _short(x)
        return r
    return _short(x)


def _short(x):
    if isinstance(x, Poly):
        return poly_str(x)
    if isinstance(x, Atom):
        return atom_str(x)
    if isinstance(x, tuple):
        if x and x[0] == "base":
            return str(x[1])
        if x and x[0] in ("perm",):
            return f"perm({short(x[1])})"
        if x and x[0] == "sel":
            return f"{short(x[1])}-{{{','.join(sorted(':'.join(map(str, z)) for z in x[2]))}}}"
        return "(" + ",".join(short(y) for y in x) + ")"
    if isinstance(x, frozenset):
        return "{" + ",".join(sorted(short(y) for y in x)) + "}"
    s = str(x)
    return s if len(s) < 60 else s[:57] + "..."


_AS = {}


def atom_str(a):
    r = _AS.get(a.id)
    if r is None:
        r = _AS[a.id] = _atom_str(a)
    return r


def _atom_str(a):
    axs = "[" + ",".join(short(x) for x in a.axes) + "]" if a.axes else ""
    if a.kind == "sym" and len(a.key) == 1:
        return f"{a.key[0]}{axs}"
    if a.kind in ("sym", "op"):
        s = f"{a.key[0]}({','.join(short(k) for k in a.key[1:])})"
        if len(s) > 60:
            s = f"{a.key[0]}#{a.id}"
        return s + axs
    if a.kind == "conj":
        return f"~{atom_str(a.key[0])}"
    s = f"{a.kind}({','.join(short(k) for k in a.key)})"
    return s + axs


def _cstr(c):
    if c[1] == 0:
        return str(float(c[0])) if c[0].denominator > 1000 else str(c[0])
    if c[0] == 0:
        return f"{c[1]}i"
    return f"({c[0]}+{c[1]}i)"


_PS = {}


def poly_str(p):
    if not p.m:
        return "0"
    r = _PS.get(p)
    if r is not None:
        return r
    r = _PS[p] = _poly_str(p)
    return r


def _poly_str(p):
    out = []
    for mono, c in sorted(p.m.items(), key=lambda kv: (len(kv[0]), kv[0])):
        s = "*".join(atom_str(Atom.byid[i]) + (f"^{e}" if e != 1 else "") for i, e in mono)
        cs = _cstr(c)
        if not s:
            out.append(cs)
        elif cs == "1":
            out.append(s)
        else:
            out.append(cs + "*" + s)
    r = " + ".join(out)
    return r if len(r) < 600 else r[:597] + "..."
