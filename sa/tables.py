"""A small constants table with known structure: five constituents, the last
two built from the first three by shallow-water coefficients.  All numbers the
structure does not need (Doodson numbers, phases, coefficients) stay symbolic."""

from . import terms as tm
from . import world
from .vals import *
from .vals import NONE

K = ("lit", 5)
NDIRECT = 3
# (constituent, parents): rows of the shallow-water table
NAMES = ("C3", "AA", "EE", "DD4", "BBB")
PARENTS = {3: [(0, "c0"), (2, "c1")], 4: [(1, "c2")]}

SRC = """
isz = np.array([1.0, 1.0, 1.0, 1.0, 3.0])
nsz = np.array([1.0, 1.0, 1.0, 2.0, 1.0])
iname = np.array([1, 3, 2])
freq = np.array([f0, f1, f2, f3, f4])
coef = np.array([c0, c1, c2])
iconst = np.array([1, 1, 2, 1])
name = np.array(["C3", "AA", "EE", "DD4", "BBB"], dtype=object)
ilatfac = np.array([0, 1, 2, 2])
"""
SAT = ("lit", 4)
# satellites of each constituent
ILATFAC = (0, 1, 2, 2)
SATELLITES = {0: (0, 1, 3), 1: (2,), 2: ()}


def small(I, st, bunch):
    from .rules.common import spec

    b = world.constants(I, st, bunch)
    sc = {n: world.scalar(n, deps=NONE) for n in ("f0", "f1", "f2", "f3", "f4", "c0", "c1", "c2")}
    I.known_bad[("direct", K)] = set(range(NDIRECT))
    s = spec(I, st, SRC, mod="utide.utilities", **sc)
    v = {n: I.newarr(list(s[n].axes), s[n].dt, I.info(s.st, s[n])) for n in ("isz", "nsz", "iname", "freq", "coef", "iconst", "ilatfac", "name")}
    for n in ("isz", "nsz"):
        v[n] = I.newarr(list(v[n].axes), v[n].dt, I.info(st, v[n]).rep(inv=frozenset([("direct", "nan")])))
    c = st.heap[b.oid].d
    const = st.heap[I.pick(c["const"], st).oid].d
    five = {}
    for n, x in const.items():
        if isinstance(x, Arr) and x.axes[0] == world.P:
            five[n] = world.base_arr("const." + n, [K] + list(x.axes[1:]), x.dt, I.info(st, x).re, deps=NONE)
    const.update(five)
    const.update(ishallow=v["isz"], nshallow=v["nsz"], freq=v["freq"], name=v["name"])
    sh = st.heap[I.pick(c["shallow"], st).oid].d
    sh.update(iname=v["iname"], coef=v["coef"])
    sat = st.heap[I.pick(c["sat"], st).oid].d
    four = {}
    for n, x in sat.items():
        if isinstance(x, Arr) and x.axes[0] == world.S:
            four[n] = world.base_arr("sat." + n, [SAT] + list(x.axes[1:]), x.dt, I.info(st, x).re, deps=NONE)
    sat.update(four)
    sat.update(iconst=v["iconst"], ilatfac=v["ilatfac"])
    return b


_cache = {}


def interp(root):
    """Interpreter with the package loaded over the small table."""
    if root not in _cache:
        _cache[root] = world.load(root, tables=small)
    return _cache[root]
