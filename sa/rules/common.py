"""Shared parts of the rules."""

from .. import configs as cf
from .. import terms as tm
from .. import world
from ..harness import site
from ..vals import *
from ..vals import NONE

GRID = dict(cf.DIMS)


def grid(tier, seed, fixed=None, drop=(), extra=None, ok=cf.valid, cap=None):
    dims = {k: v for k, v in GRID.items() if k not in drop}
    if extra:
        dims.update(extra)
    cs = cf.covering(dims, 2 if tier == "quick" else 3, seed, fixed, ok)
    if cap:
        cs = cs[:cap]
    return cf.named(cs)


def walk(run, v=None, path=()):
    """(path, value) of every number or array reachable from the result."""
    I, st = run.I, run.st
    seen = set()

    def go(v, path):
        v = I.pick(v, st)
        if isinstance(v, (Num, Arr)):
            yield path, v
        elif isinstance(v, Choice):
            for _, x in v.alts:
                yield from go(x, path)
        elif isinstance(v, Ref):
            if v.oid in seen:
                return
            seen.add(v.oid)
            c = st.heap.get(v.oid)
            if isinstance(c, DictCell):
                for k, x in c.d.items():
                    yield from go(x, path + (str(k),))
            elif isinstance(c, ListCell):
                for n, it in enumerate(c.items):
                    yield from go(it[-1], path + (f"[{n}]",))
        elif isinstance(v, Unknown):
            yield path, v

    yield from go(run.value if v is None else v, path)


def name_of(path):
    return ".".join(path)


def field_site(run, path):
    """Statement that last stored a field of the result."""
    I, st = run.I, run.st
    v = I.pick(run.value, st)
    loc = None
    for k in path:
        if not isinstance(v, Ref):
            break
        loc = I.keyloc.get((v.oid, k), loc)
        c = st.heap.get(v.oid)
        if not isinstance(c, DictCell) or k not in c.d:
            break
        v = I.pick(c.d[k], st)
    n = ".".join(map(str, path))
    return f"{loc[0]}:{loc[2]} ({loc[1]}) field {n}" if loc else f"field {n}"


def field(run, *path):
    """Value of a field of the result, or None."""
    I, st = run.I, run.st
    v = I.pick(run.value, st)
    for k in path:
        c = st.heap.get(getattr(v, "oid", None))
        if not isinstance(c, DictCell) or k not in c.d:
            return None
        v = I.pick(c.d[k], st)
    return v


def term(run, v):
    return run.I.info(run.st, v).term


def show(p, n=160):
    return str(p)[:n]


import ast as _ast


class Spec:
    """Outcome of interpreting specification code: final environment or exception."""

    def __init__(self, I, st, env, exc):
        self.I, self.st, self.env, self.exc = I, st, env, exc

    def __getitem__(self, k):
        return self.I.pick(self.env[k], self.st)

    def term(self, k):
        v = self[k]
        return self.I.info(self.st, v).term if isinstance(v, (Num, Arr)) else None


_parsed = {}


def spec(I, st, src, mod="utide._solve", **bind):
    """Interpret a piece of specification code (statements) over values of an
    analysed state, in the same domain as the code under analysis."""
    tree = _parsed.get(src)
    if tree is None:
        import textwrap

        tree = _parsed[src] = _ast.parse(textwrap.dedent(src)).body
    s = st.copy()
    s.env = dict(bind, np=Ext("numpy"))
    old = I.frames
    fr = type(old[-1])(None, I.mods[mod])
    fr.st = s
    I.frames = [fr]
    quiet, I.quiet = I.quiet, True
    exc = None
    try:
        flow = I.block(tree, s)
        end = flow.normal if flow.normal is not None else s
        if flow.normal is None and flow.raises:
            end, exc = flow.raises[0]
    except AbsRaise as e:
        exc, end = e.exc, s
    finally:
        I.quiet = quiet
        I.frames = old
    return Spec(I, end, end.env, exc)


def same(rep, rule, site_, t1, t2, detail, key=None, under=()):
    """Obligation: two terms denote the same quantity."""
    if t1 is None or t2 is None:
        rep.unsure(rule, site_, "not available")
        return None
    v, w = tm.teq(t1, t2, under)
    if v is False:
        detail = f"{detail}: {show(w[1])} / {show(w[2])}"
    return rep.check(v, rule, site_, detail, key)


def by_alt(I, st, v):
    """(guard, value) with one value per guarded alternative of an array."""
    i = I.info(st, v)
    for g, p in i.term.alts:
        j = i.rep(term=tm.T(p))
        if isinstance(v, Arr):
            yield g, I.newarr(list(v.axes), v.dt, j, unit=v.unit)
        else:
            yield g, Num(v.dt, j)
