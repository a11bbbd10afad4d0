"""The analysed world: the package's modules and abstract inputs."""

import sys

from . import terms as tm
from .interp import Interp, State, Frame
from .vals import *
from .vals import NONE

sys.setrecursionlimit(20000)

REPO = "/repo"

P = ("base", "P")  # constituents of the constants table
S = ("base", "S")  # satellites
H = ("base", "H")  # shallow-water terms
TAX = ("base", "T")  # samples handed to solve
RAX = ("base", "R")  # times handed to reconstruct


def base_arr(name, axes, dt="f", re=None, deg=0, inv=NONE, deps=None, ma=False, mk=NONE, root=None, unit=None, im=((0.0, 0.0),), integer=False, nonneg=False):
    ax = [a for a in axes if a != tm.ONEAX]
    p = tm.sym(name, (), tuple(ax), real=dt != "c", nonneg=nonneg, integer=integer)
    d = frozenset([name]) if deps is None else deps
    return Arr(axes, dt, Info(tm.T(p), d, re, None if dt == "c" else im, deg, inv, mk), root=frozenset([root]) if root else None, ma=ma, unit=unit)


def scalar(name, dt="f", re=None, deg=0, deps=None, unit=None, inv=NONE, nonneg=False, integer=False):
    p = tm.sym(name, (), (), real=dt != "c", nonneg=nonneg, integer=integer)
    return Num(dt, Info(tm.T(p), frozenset([name]) if deps is None else deps, re, ((0.0, 0.0),) if dt != "c" else None, deg, inv), unit=unit)


DOODSON6 = ("lit", 6)


def constants(I, st, bunch):
    """Bunch of the tables as loadbunch + convert_unicode_arrays give them."""
    def tab(**kw):
        return I.call(bunch, [], kw, st)

    def col(n, ax, dt="f", re=None, inv=(), **kw):
        return base_arr(n, [ax], dt, re, deps=NONE, inv=frozenset((n, k) for k in inv), integer=dt == "i", **kw)

    def nan1(n):
        # both columns hold NaN in the rows of the directly defined constituents
        return base_arr(n, [P], "f", ((1.0, INF),), deps=NONE, inv=frozenset([("direct", "nan")]))

    const = {
        "name": col("const.name", P, "U"),
        "freq": col("const.freq", P, re=((0.0, INF),), nonneg=True),
        "df": col("const.df", P, re=((0.0, INF),), nonneg=True),
        "semi": col("const.semi", P),
        "ishallow": nan1("const.ishallow"),
        "nshallow": nan1("const.nshallow"),
        "nsat": col("const.nsat", P, inv=["nan"]),
        "isat": col("const.isat", P, inv=["nan"]),
        "ikmpr": col("const.ikmpr", P, inv=["nan"]),
        "kmpr": col("const.kmpr", P, "U"),
        "doodsonamp": col("const.doodsonamp", P, inv=["nan"]),
        "doodsonspecies": col("const.doodsonspecies", P, inv=["nan"]),
        "doodson": base_arr("const.doodson", [P, DOODSON6], "f", deps=NONE),
    }
    sat = {
        "iconst": col("sat.iconst", S, "i", re=((1.0, INF),)),
        "ilatfac": col("sat.ilatfac", S, "i", re=((0.0, 2.0),)),
        "amprat": col("sat.amprat", S, re=((0.0, 1.0),), nonneg=True),
        "phcorr": col("sat.phcorr", S, re=((0.0, 1.0),)),
        "deldood": base_arr("sat.deldood", [S, ("lit", 3)], "i", deps=NONE, integer=True),
    }
    shallow = {
        "iconst": col("shallow.iconst", H, "i", re=((1.0, INF),)),
        "iname": col("shallow.iname", H, "i", re=((1.0, INF),)),
        "coef": col("shallow.coef", H),
    }
    return tab(const=tab(**const), sat=tab(**sat), shallow=tab(**shallow), ut_version=Known("v1p0"))


def load(root=REPO, hooks=True, tables=constants):
    """Interpreter with the package loaded; `tables` makes the constants."""
    I = Interp(root)

    def loadbunch(I, f, args, kwargs, st):
        if f.mod.name != "utide.utilities" or not args:
            return None
        a = I.pick(args[0], st)
        if isinstance(a, Known) and isinstance(a.v, str) and a.v.endswith("ut_constants.npz"):
            return tables(I, st, f.mod.env["Bunch"])
        return None

    def convert(I, f, args, kwargs, st):
        a = I.pick(args[0], st) if args else None
        if f.mod.name == "utide.utilities" and isinstance(a, Ref) and isinstance(st.heap.get(a.oid), DictCell):
            # text columns are known to be text already: a new Bunch of the same entries
            bunch = f.mod.env["Bunch"]
            out = I.call(bunch, [], {}, st)
            c = st.heap[a.oid]
            for k, v in c.d.items():
                if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), DictCell):
                    v = I.call(f, [v], {}, st)
                I.np.dict_set(st, out, Known(k), v, mutate=False)
            return out
        return None

    I.summaries["loadbunch"] = loadbunch
    I.summaries["convert_unicode_arrays"] = convert
    I.load_all()
    return I


def fresh_state(I, mod="utide._solve"):
    st = State({}, dict(I.base_heap))
    fr = Frame(None, I.mods[mod])
    fr.st = st
    I.frames = [fr]
    I.loc = ("<caller>", "<caller>", 0)
    return st


def pylist(I, st, vals, kind="list", root=None):
    r = Ref(kind, root)
    st.heap[r.oid] = ListCell([("v", v) for v in vals])
    return r


def pydict(I, st, d, root=None):
    r = Ref("dict", root)
    st.heap[r.oid] = DictCell(d)
    return r


# ------------------------------------------------------------------ runs
LATR = ((-90.0, 90.0),)
LK = ("base", "L")  # requested constituents (an arbitrary list of names)


def names_arg(root="arg:constit"):
    """An arbitrary sequence of constituent names."""
    return ("names", root)


def abstract_names(I, st, name, ax, root):
    r = Ref("list", root)
    el = Num("U", Info(tm.T(tm.sym(name, (), (ax,))), frozenset([name]), None, None, 0))
    st.heap[r.oid] = ListCell([("ax", ax, el)])
    return r


def symlist(I, st, name, n, root, deg=0, kind="list", re=None):
    return pylist(I, st, [scalar(f"{name}{k}", deps=frozenset([name])) for k in range(n)], kind, root)


def strlist(I, st, names, root, kind="list"):
    return pylist(I, st, [Known(n) for n in names], kind, root)


def infer_arg(I, st, spec, twodim, kind="inst"):
    """spec: list of (inferred, reference) names."""
    n = len(spec)
    m = 2 * n if twodim else n
    d = {
        "inferred_names": strlist(I, st, [a for a, _ in spec], "arg:infer.inferred_names"),
        "reference_names": strlist(I, st, [b for _, b in spec], "arg:infer.reference_names"),
        "amp_ratios": symlist(I, st, "amp_ratio", m, "arg:infer.amp_ratios"),
        "phase_offsets": symlist(I, st, "phase_offset", m, "arg:infer.phase_offsets"),
    }
    if kind == "dict":
        return pydict(I, st, d, "arg:infer")
    B = I.mods["utide.utilities"].env["Bunch"]
    r = I.call(B, [], d, st)
    r = Ref(r.kind, "arg:infer", r.oid)
    return r


def series(name, ax, kinds=("nan", "inf", "masked"), deg=1, root=None, unit=None, dt="f"):
    """A caller's array with every kind of missing sample."""
    inv = frozenset((name, k) for k in ("nan", "inf") if k in kinds)
    ma = "masked" in kinds
    mk = frozenset([(name, "masked")]) if ma else NONE
    return base_arr(name, [ax], dt, None, deg, inv, None, ma=ma, mk=mk, root=root or f"arg:{name}", unit=unit, integer=dt == "M")


KINDS = ("nan", "inf", "masked")


class Run:
    """Result of interpreting one call: value or exception, final state, events."""

    def __init__(self, I, st, value, exc, events, unknown, args):
        self.I, self.st, self.value, self.exc, self.events, self.unknown, self.args = I, st, value, exc, events, unknown, args

    def path(self, *keys):
        """Entry reached by keys/attributes of the result."""
        v = self.value
        for k in keys:
            v = self.I.pick(v, self.st)
            c = self.st.heap.get(getattr(v, "oid", None))
            if not isinstance(c, DictCell) or k not in c.d:
                return None
            v = c.d[k]
        return v

    def keys(self, *path):
        v = self.path(*path)
        v = self.I.pick(v, self.st) if v is not None else None
        c = self.st.heap.get(getattr(v, "oid", None))
        return set(c.d) if isinstance(c, DictCell) else None

    def info(self, *keys):
        v = self.path(*keys)
        return None if v is None else self.I.info(self.st, v)


def call(I, modname, fname, args, kwargs, st):
    n0 = len(I.events)
    unk0 = I.stats.get("unknown", set())
    I.stats["unknown"] = set()
    f = I.mods[modname].env[fname]
    value = exc = None
    try:
        value = I.call(f, args, kwargs, st)
    except AbsRaise as e:
        exc = e.exc
    u = I.stats["unknown"]
    I.stats["unknown"] = unk0 | u
    return Run(I, st, value, exc, I.events[n0:], u, (args, kwargs))


def opt_value(I, st, v):
    if isinstance(v, Value):
        return v
    if isinstance(v, (str, type(None))):
        return Known(v)
    if isinstance(v, (bool, int, float)):
        return num(v)
    if isinstance(v, dict):
        return pydict(I, st, {k: opt_value(I, st, x) for k, x in v.items()})
    raise TypeError(v)


def run_solve(I, twodim=False, t="python", kinds=KINDS, lat=None, infer=None, st=None, tdt="f", parity=0, **opts):
    """Interpret solve() on arbitrary data for one option combination.

    t: value of the epoch option ('python', 'matlab', ...) or 'datetime'.
    infer: list of (inferred, reference) names.
    """
    st = st or fresh_state(I, "utide._solve")
    tm.PARITY[TAX] = parity
    unit = None
    if t == "datetime":
        tin = series("t", TAX, tuple(k for k in kinds if k != "inf"), 0, dt="M", unit="ms")
    else:
        tin = series("t", TAX, kinds, 0, dt=tdt)
    u = series("u", TAX, kinds)
    args = [tin, u]
    kw = {k: opt_value(I, st, v) for k, v in opts.items()}
    if twodim:
        args.append(series("v", TAX, kinds))
    kw["lat"] = lat if lat is not None else scalar("lat", re=LATR)
    if t != "datetime" and t is not None and "epoch" not in kw:
        kw["epoch"] = opt_value(I, st, t)
    if infer is not None:
        kw["infer"] = infer if isinstance(infer, Value) else infer_arg(I, st, infer, twodim)
    return call(I, "utide._solve", "solve", args, kw, st)


def run_reconstruct(I, coef, st, t="python", kinds=KINDS, tin=None, **opts):
    if tin is None:
        if t == "datetime":
            tin = series("tr", RAX, tuple(k for k in kinds if k != "inf"), 0, dt="M", unit="ms")
        else:
            tin = series("tr", RAX, kinds, 0)
    kw = {k: opt_value(I, st, v) for k, v in opts.items()}
    if t != "datetime" and t is not None and "epoch" not in kw:
        kw["epoch"] = opt_value(I, st, t)
    return call(I, "utide._reconstruct", "reconstruct", [tin, coef], kw, st)


def date_symbol(name):
    """An arbitrary date object (datetime, date string parsed, datetime64): ms since 1970."""
    p = tm.sym(name, (), (), integer=True)
    return Num("M", Info(tm.T(p), frozenset([name]), None, ((0.0, 0.0),), 0), unit="ms")


def own(I, st, v, root):
    """Mark everything reachable from v as the caller's property `root`."""
    seen = {}

    def fix(v):
        if isinstance(v, Arr):
            if v.root and any(str(r).startswith("arg:") for r in v.root):
                r = v.root | {root}
            else:
                r = frozenset([root])
            a = Arr(v.axes, v.dt, v.init, root=r, parents=v.parents, unit=v.unit, ma=v.ma, oid=v.oid)
            if v.oid in I.handles:
                I.handles[v.oid] = a
            return a
        if isinstance(v, Ref):
            if v.oid not in seen:
                seen[v.oid] = True
                c = st.heap.get(v.oid)
                if isinstance(c, DictCell):
                    n = c.copy()
                    n.d = {k: fix(x) for k, x in c.d.items()}
                    st.heap[v.oid] = n
                elif isinstance(c, ListCell):
                    st.heap[v.oid] = ListCell([it[:-1] + (fix(it[-1]),) for it in c.items], c.deps)
            return Ref(v.kind, root if not v.root else v.root, v.oid)
        if isinstance(v, Choice):
            return Choice([(g, fix(x)) for g, x in v.alts])
        return v

    return fix(v)


def reachable(I, st, v, pred=None):
    """oids of mutable storage reachable from v: {oid: path}."""
    out = {}

    def go(v, path):
        if isinstance(v, Arr):
            for o in {v.oid} | set(v.parents or ()):
                out.setdefault(o, path)
        elif isinstance(v, Ref):
            if v.oid in out:
                return
            c = st.heap.get(v.oid)
            if v.kind != "tuple":
                out[v.oid] = path
            if isinstance(c, DictCell):
                for k, x in c.d.items():
                    go(x, path + (str(k),))
            elif isinstance(c, ListCell):
                for it in c.items:
                    go(it[-1], path + ("[]",))
        elif isinstance(v, Choice):
            for _, x in v.alts:
                go(x, path)

    go(v, ())
    return out


def list_series(I, st, name, ax=None, kinds=("nan",)):
    """A plain list of numbers (floats, NaN for missing ones)."""
    ax = ax or TAX
    r = Ref("list", f"arg:{name}")
    el = Num("f", Info(tm.T(tm.sym(name, (), (ax,))), frozenset([name]), None, ((0.0, 0.0),), 0 if name == "t" else 1, frozenset((name, k) for k in kinds)))
    st.heap[r.oid] = ListCell([("ax", ax, el)])
    return r
