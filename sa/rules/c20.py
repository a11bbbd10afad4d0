"""C20: frequencies are the time derivatives of the astronomical arguments."""
from fractions import Fraction

from .. import tables
from .common import *

EXPLANATION = ("The astronomical variables are interpreted at a symbolic time: every row is a polynomial in time minus a whole number of cycles, differentiated symbolically and compared coefficient by coefficient with the returned derivative. Over a table of five constituents with "
               "symbolic Doodson numbers, phases and shallow-water coefficients (two built from the other three), the argument V of the exact option is differentiated at the reference time and compared with 24 times the frequency, the linearised and raw options likewise, and "
               "the frequencies solve() stores are compared with those of its reference time.")
ASSUMPTIONS = ["exact arithmetic; two polynomials agree when their coefficients agree to nine digits", "no sample falls exactly on a wrap of the phase"]

EPOCH = Fraction(1387191, 2)  # 693595.5, only to centre the comparison
SPAN = 40000  # days around it in which a difference is weighed
ROWS = ("tau", "s", "h", "p", "np", "pp")


def configs(tier, seed):
    out = [dict(case="astron")]
    out += [dict(case="times", kind=k) for k in ("array", "list", "2-D")]
    out.append(dict(case="freqs"))
    for nodal in ("exact", "linear_time", "none"):
        for phase in ("Greenwich", "linear_time", "raw"):
            out.append(dict(case="argument", nodal=nodal, phase=phase))
    for c in cf.covering({k: v for k, v in GRID.items() if k in ("twodim", "trend", "nodal", "phase", "constit", "infer", "order_constit", "epoch", "time")}, 2, seed, {}, cf.valid):
        if c["constit"] == "auto" and c["infer"]:
            c = dict(c, constit="list")
        out.append(dict(c, case="solve", conf_int="linear" if c["order_constit"] == "SNR" else "none"))
    return cf.named(out)


def run(I, c, rep):
    {"astron": astron, "times": times, "freqs": freqs, "argument": argument, "solve": solve}[c["case"]](I, c, rep)


def flags(c):
    return [c["nodal"] == "linear_time", c["nodal"] == "none", c["phase"] == "linear_time", c["phase"] == "raw"]


def atom_of(num):
    p = num.info.term.single()
    return next(iter(p.atoms()))


def shift(p, a):
    """p with the time written as epoch + d."""
    q = tm.add(tm.patom(a), tm.pconst(EPOCH))
    out = tm.PZERO
    for mono, c in p.m.items():
        r = tm.Poly({(): c})
        for i, e in mono:
            x = tm.Atom.byid[i]
            f = q if x is a else tm.patom(x)
            if isinstance(e, int) and e > 0 and x is a:
                for _ in range(e):
                    r = tm.mul(r, f)
            else:
                r = tm.mul(r, tm.Poly({((i, e),): (Fraction(1), Fraction(0))}))
        out = tm.add(out, r)
    return out


def close(p, q, a):
    """Whether two polynomials in the time agree; (verdict, witness)."""
    if p is None or q is None:
        return None, None
    if tm.imprecise(p) or tm.imprecise(q):
        return None, None
    if any(x is not a and tm.mentions(x, a) for x in set(p.atoms()) | set(q.atoms())):
        v = tm.peq(p, q)
        return v, None
    p, q = shift(p, a), shift(q, a)
    for mono in set(p.m) | set(q.m):
        k = sum(e for i, e in mono if tm.Atom.byid[i] is a)
        u, w = p.m.get(mono, (Fraction(0), Fraction(0))), q.m.get(mono, (Fraction(0), Fraction(0)))
        for x, y in zip(u, w):
            if abs(x - y) <= Fraction(1, 10**9) * max(abs(x), abs(y)) or abs(x - y) * SPAN**int(k) < Fraction(1, 10**16):
                continue
            return False, f"coefficient of {tm.short(tm.Poly({mono: (Fraction(1), Fraction(0))}))} (days since 1899-12-31.5): {float(x)!r} / {float(y)!r}"
    return True, None


def judge(rep, rule, where, p, q, a, detail, key):
    v, w = close(p, q, a)
    rep.check(v, rule, where, detail + (f": {w}" if w else ""), key=key)


def single(s, n):
    t = s.term(n)
    return t.single() if t is not None else None


def astron(I, c, rep):
    st = world.fresh_state(I, "utide.astronomy")
    f = I.mods["utide.astronomy"].env.get("ut_astron")
    if f is None:
        rep.unsure("derivative", "ut_astron", "no function of that name")
        return
    where = f"utide/astronomy.py:{f.node.lineno} (ut_astron)"
    t = world.scalar("t")
    src = "a, d = f(t)\n" + "".join(f"a{k} = a[{k}, 0]\nd{k} = d[{k}, 0]\n" for k in range(6))
    s = spec(I, st, src, mod="utide.astronomy", f=f, t=t)
    if s.exc is not None:
        rep.unsure("derivative", where, f"raises {s.exc}")
        return
    a = atom_of(t)
    for k, n in enumerate(ROWS):
        p, d = single(s, f"a{k}"), single(s, f"d{k}")
        if p is None or d is None:
            rep.unsure("derivative", f"{where} {n}", "several alternatives")
            continue
        judge(rep, "derivative", f"{where} {n}", tm.diff(p, a), d, a, f"the derivative returned for {n} is not the time derivative of {n}", f"derivative {n}")


def times(I, c, rep):
    """A sequence of times gives what each of them gives alone."""
    st = world.fresh_state(I, "utide.astronomy")
    f = I.mods["utide.astronomy"].env.get("ut_astron")
    if f is None:
        rep.unsure("per time", "ut_astron", "no function of that name")
        return
    where = f"utide/astronomy.py:{f.node.lineno} (ut_astron) {c['kind']}"
    t = world.scalar("t")
    one = spec(I, st, "a, d = f(t)\n" + "".join(f"a{k} = a[{k}, 0]\nd{k} = d[{k}, 0]\n" for k in range(6)), mod="utide.astronomy", f=f, t=t)
    if one.exc is not None:
        rep.unsure("per time", where, f"raises {one.exc}")
        return
    a = atom_of(t)
    if c["kind"] == "list":
        us = {n: world.scalar(n) for n in ("t1", "t2")}
        src = "a, d = f([t1, t2])\n" + "".join(f"a{k}_{j} = a[{k}, {j}]\nd{k}_{j} = d[{k}, {j}]\n" for k in range(6) for j in (0, 1))
        s = spec(I, st, src, mod="utide.astronomy", f=f, **us)
        cols = [("_0", atom_of(us["t1"])), ("_1", atom_of(us["t2"]))]
    else:
        ax = [world.TAX] if c["kind"] == "array" else [tm.ONEAX, world.TAX]
        u = world.base_arr("tt", ax)
        src = "a, d = f(t)\n" + "".join(f"a{k} = a[{k}]\nd{k} = d[{k}]\n" for k in range(6))
        s = spec(I, st, src, mod="utide.astronomy", f=f, t=u)
        cols = [("", next(iter(u.info.term.single().atoms())) if hasattr(u, "info") else None)]
        if cols[0][1] is None:
            cols = [("", next(iter(I.info(st, u).term.single().atoms())))]
    if s.exc is not None:
        rep.bad("per time", where, f"raises {s.exc.name}: {s.exc.msg}", key="raises")
        return
    for suf, b in cols:
        for k, n in enumerate(ROWS):
            for r in "ad":
                x = one.term(f"{r}{k}")
                if x is None:
                    rep.unsure("per time", where, "not available")
                    continue
                x = tm.tmap(lambda p: tm.subst_atoms(p, lambda y: tm.patom(b) if y is a else None), x)
                same(rep, "per time", f"{where} {n}", x, s.term(f"{r}{k}{suf}"), f"{n} of one of several times is not what that time alone gives", key=f"{r}{k}")


V = """
lind = np.array([0, 1, 2, 3, 4])
fr = linearized_freqs(tref)
F, U, V = FUV(t, tref, lind, lat, flags)
"""


def freqs(I, c, rep):
    """Every frequency is built from the derivatives with the Doodson numbers,
    and the shallow-water ones from their parents."""
    I = tables.interp(I.root)
    st = world.fresh_state(I, "utide.harmonics")
    e = I.mods["utide.harmonics"].env
    f = e.get("linearized_freqs")
    where = f"utide/harmonics.py:{getattr(getattr(f, 'node', None), 'lineno', '?')} (linearized_freqs)"
    src = "fr = f(tref)\na, d = ut_astron(tref)\n" + "".join(f"f{k} = fr[{k}]\n" for k in range(5))
    src += "".join(f"s{k} = np.sum(const.doodson[{k}] * d[:, 0]) / 24\n" for k in range(tables.NDIRECT))
    src += "".join(f"s{k} = " + " + ".join(f"{w} * s{j}" for j, w in ps) + "\n" for k, ps in tables.PARENTS.items())
    tref = world.scalar("tref")
    sc = {n: world.scalar(n, deps=NONE) for n in ("c0", "c1", "c2")}
    s = spec(I, st, src, mod="utide.harmonics", f=f, tref=tref, **sc)
    if f is None or s.exc is not None:
        rep.unsure("frequency", where, f"raises {s.exc}")
        return
    a = atom_of(tref)
    for k in range(5):
        judge(rep, "frequency", f"{where} {'direct' if k < tables.NDIRECT else 'shallow-water'} constituent {k}", single(s, f"f{k}"), single(s, f"s{k}"), a, "the frequency is not the combination of the derivatives with the constituent's own Doodson and shallow-water coefficients", f"frequency {k}")


def argument(I, c, rep):
    I = tables.interp(I.root)
    st = world.fresh_state(I, "utide.harmonics")
    e = I.mods["utide.harmonics"].env
    where = f"utide/harmonics.py:{getattr(getattr(e.get('FUV'), 'node', None), 'lineno', '?')} (FUV, nodal {c['nodal']}, phase {c['phase']})"
    src = V + "".join(f"f{k} = 24 * fr[{k}]\nv{k} = V[0, {k}]\n" for k in range(5)) + "E = ut_E(t, tref, fr, lind, lat, flags, [])\nf = F[0, :]\n" + "".join(f"e{k} = E[0, {k}]\nk{k} = F[0, {k}] * np.exp(2j * np.pi * (U[0, {k}] + V[0, {k}]))\n" for k in range(5))
    t, tref = world.scalar("t"), world.scalar("tref")
    s = spec(I, st, src, mod="utide.harmonics", t=t, tref=tref, lat=world.scalar("lat"), flags=I.np.mklist(st, [("v", Known(b)) for b in flags(c)]))
    if s.exc is not None:
        rep.unsure("argument", where, f"raises {s.exc}")
        return
    a, b = atom_of(t), atom_of(tref)
    for k in range(5):
        v, f = single(s, f"v{k}"), single(s, f"f{k}")
        d = tm.diff(v, a) if v is not None else None
        if d is None or f is None:
            rep.unsure("argument", f"{where} constituent {k}", "the argument is not differentiable symbolically")
            continue
        at = tm.subst_atoms(d, lambda y: tm.patom(b) if y is a else None)
        judge(rep, "argument", f"{where} {'direct' if k < tables.NDIRECT else 'shallow-water'} constituent {k}", at, f, b, "the derivative of the astronomical argument at the reference time is not the constituent's frequency", f"argument {k}")
        same(rep, "basis", f"{where} constituent {k}", s.term(f"e{k}"), s.term(f"k{k}"), "the basis function is not built from the argument", key=f"basis {k}")


def solve(I, c, rep):
    def freq(I, f, args, kwargs, st):
        t = I.info(st, I.pick(args[0], st)) if len(args) == 1 and not kwargs else None
        if t is None:
            return None
        return I.newarr([world.P], "f", Info(tm.T(tm.opaque("freq", (t.term,), (world.P,), nonneg=True)), t.deps, ((0.0, INF),)))

    I.summaries["linearized_freqs"] = freq
    try:
        stored(I, c, rep)
    finally:
        del I.summaries["linearized_freqs"]


def stored(I, c, rep):
    r = cf.run_solve(I, c)
    if r is None or r.exc is not None or r.value is None:
        rep.unsure("stored frequencies", "solve", "no result")
        return
    src = "g = h(c.aux.reftime)[c.aux.lind]\nf = c.aux.frq\n"
    s = spec(I, r.st, src, mod="utide.harmonics", h=I.mods["utide.harmonics"].env["linearized_freqs"], c=r.value)
    if s.exc is not None:
        rep.unsure("stored frequencies", "solve", f"raises {s.exc}")
        return
    same(rep, "stored frequencies", field_site(r, ("aux", "frq")), s.term("f"), s.term("g"), "coef.aux.frq is not the frequency at the reference time of the constituent listed there", key="aux.frq")
