"""An arbitrary coefficient structure: that of an analysed solution with every
per-constituent and constant number replaced by a symbol."""
from . import terms as tm
from . import world
from .rules.common import field, spec
from .vals import *

KAX = ("base", "K")
PER = ("A", "A_ci", "g", "g_ci", "Lsmaj", "Lsmaj_ci", "Lsmin", "Lsmin_ci", "theta", "theta_ci", "PE", "SNR")
NONNEG = {"A", "A_ci", "g_ci", "Lsmaj", "Lsmaj_ci", "Lsmin_ci", "theta_ci", "PE", "SNR"}
DEG = {"A", "A_ci", "Lsmaj", "Lsmaj_ci", "Lsmin", "Lsmin_ci"}
CONST = ("mean", "slope", "umean", "vmean", "uslope", "vslope")


def arbitrary(I, r, names=None):
    """Solution r with symbols in place of its numbers, for the given
    constituents or (None) an arbitrary number of arbitrary ones.

    Returns (structure, state, symbols, constituent axis)."""
    ax = KAX if names is None else tm.ONEAX if len(names) == 1 else ("lit", len(names))
    sym, src = {}, []
    for k in PER:
        if field(r, k) is not None:
            sym[k] = world.base_arr("coef." + k, [ax], "f", deg=1 if k in DEG else 0, nonneg=k in NONNEG)
            src.append(f"coef['{k}'] = {k}")
    for k in CONST:
        if field(r, k) is not None:
            sym[k] = world.scalar("coef." + k, deg=1)
            src.append(f"coef['{k}'] = {k}")
    sym["frq"] = world.base_arr("coef.frq", [ax], "f", nonneg=True)
    sym["lind"] = world.base_arr("coef.lind", [ax], "i", nonneg=True, integer=True)
    src += ["coef['aux']['frq'] = frq", "coef['aux']['lind'] = lind"]
    if names is None:
        sym["name"] = I.newarr([ax], "U", Info(tm.T(tm.sym("coef.name", (), (ax,))), frozenset(["coef.name"]), None, None, 0))
        src.append("coef['name'] = name")
    else:
        src.append(f"coef['name'] = np.array({list(names)!r}, dtype=object)")
    s = spec(I, r.st, "\n".join(src), coef=r.value, **sym)
    if s.exc is not None:
        return None
    if names is not None:
        sym["name"] = field_of(s, "name")
    return r.value, s.st, sym, ax


def field_of(s, k):
    return spec(s.I, s.st, f"x = coef['{k}']", coef=s["coef"])["x"]
