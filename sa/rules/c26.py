"""C26: nodal corrections and arguments come from each constituent's own rows."""
from .. import tables
from .common import *

EXPLANATION = ("The function computing nodal factor, nodal phase and astronomical argument is interpreted over a table of five constituents (three direct ones with three, one and no satellites, two shallow-water ones built from the others) whose Doodson numbers, satellite numbers, ratios, phases "
               "and shallow-water coefficients are symbols, at symbolic times and latitude and for several lists of requested constituents. Every value is compared with the formula written out for that constituent from its own rows.")
ASSUMPTIONS = ["exact arithmetic", "the latitude constants and the treatment of latitudes within five degrees of the equator are those of UTide", "whole cycles of the argument are disregarded"]

LISTS = {"all": [0, 1, 2, 3, 4], "reversed": [4, 3, 2, 1, 0], "some": [3, 0], "shallow only": [4, 3]}


def configs(tier, seed):
    out = []
    for nodal in ("exact", "linear_time", "none"):
        for phase in ("Greenwich", "linear_time", "raw"):
            for ask in LISTS:
                if tier != "quick" or ask == "all" or phase == "Greenwich" or (phase == "linear_time" and nodal == "linear_time"):
                    out.append(dict(nodal=nodal, phase=phase, ask=ask))
    return cf.named(out)


def satellites(k):
    """Source of z_k: 1 + the sum over the satellites of constituent k."""
    out = f"z{k} = 1.0 + 0.0j\n"
    for n in tables.SATELLITES[k]:
        fac = {0: "1.0", 1: "0.36309 * (1.0 - 5.0 * s**2) / s", 2: "2.59808 * s"}[tables.ILATFAC[n]]
        out += f"z{k} = z{k} + sat.amprat[{n}] * ({fac}) * np.exp(2j * np.pi * (sat.deldood[{n}, 0] * an[3] + sat.deldood[{n}, 1] * an[4] + sat.deldood[{n}, 2] * an[5] + sat.phcorr[{n}]))\n"
    return out + f"F{k} = np.abs(z{k})\nU{k} = np.angle(z{k}) / (2 * np.pi)\n"


def source(c, ask):
    src = f"lind = np.array({ask})\nF, U, V = FUV(t, tref, lind, lat, flags)\n"
    src += "fr = linearized_freqs(tref)\nhere, d1 = ut_astron(t)\nthen, d2 = ut_astron(tref)\n"
    src += "if abs(lat) < 5:\n    lt = np.copysign(5, lat)\nelse:\n    lt = lat\ns = np.sin(np.deg2rad(lt))\n"
    src += "an = " + ("then" if c["nodal"] == "linear_time" else "here") + "\n"
    src += "av = " + ("then" if c["phase"] == "linear_time" else "here") + "\n"
    for k in range(tables.NDIRECT):
        src += satellites(k) if c["nodal"] != "none" else f"F{k} = 1.0\nU{k} = 0.0\n"
        src += f"V{k} = " + " + ".join(f"const.doodson[{k}, {j}] * av[{j}]" for j in range(6)) + f" + const.semi[{k}]\n"
    for k, ps in tables.PARENTS.items():
        if c["nodal"] != "none":
            src += f"F{k} = " + " * ".join(f"F{j} ** np.abs({w})" for j, w in ps) + "\n"
            src += f"U{k} = " + " + ".join(f"{w} * U{j}" for j, w in ps) + "\n"
        else:
            src += f"F{k} = 1.0\nU{k} = 0.0\n"
        src += f"V{k} = " + " + ".join(f"{w} * V{j}" for j, w in ps) + "\n"
    for k in range(5):
        if c["phase"] == "linear_time":
            src += f"V{k} = V{k} + 24 * (t - tref) * fr[{k}]\n"
        elif c["phase"] == "raw":
            src += f"V{k} = 24 * (t - tref) * fr[{k}]\n"
    for i, k in enumerate(ask):
        src += f"f_{i} = F[:, {i}]\nu_{i} = U[:, {i}]\nv_{i} = V[:, {i}]\n"
    return src


def whole(p):
    """p without its whole numbers of cycles (times table coefficients)."""
    out = {}
    for mono, c in p.m.items():
        if any(tm.Atom.byid[i].kind == "int" or tm.Atom.byid[i].kind == "fn" and tm.Atom.byid[i].key[0] in ("trunc", "floor", "ceil", "rint") for i, e in mono):
            continue
        out[mono] = c
    return tm.Poly(out)


def run(I, c, rep):
    I = tables.interp(I.root)
    st = world.fresh_state(I, "utide.harmonics")
    e = I.mods["utide.harmonics"].env
    where = f"utide/harmonics.py:{getattr(getattr(e.get('FUV'), 'node', None), 'lineno', '?')} (FUV)"
    ask = LISTS[c["ask"]]
    fl = [c["nodal"] == "linear_time", c["nodal"] == "none", c["phase"] == "linear_time", c["phase"] == "raw"]
    bind = {n: world.scalar(n, deps=NONE) for n in ("c0", "c1", "c2")}
    bind.update(t=world.base_arr("t", [world.TAX]), tref=world.scalar("tref"), lat=world.scalar("lat"), flags=I.np.mklist(st, [("v", Known(b)) for b in fl]))
    s = spec(I, st, source(c, ask), mod="utide.harmonics", **bind)
    if s.exc is not None:
        rep.unsure("own rows", where, f"raises {s.exc}")
        return
    for i, k in enumerate(ask):
        kind = ("direct" if k < tables.NDIRECT else "shallow-water") + f" constituent {k}"
        for x, what in (("F", "nodal factor"), ("U", "nodal phase"), ("V", "astronomical argument")):
            a, b = s.term(f"{x.lower()}_{i}"), s.term(f"{x}{k}")
            if x == "V" and a is not None and b is not None:
                a, b = tm.tmap(whole, a), tm.tmap(whole, b)
            same(rep, "own rows", f"{where} {kind}, {what}, {c['ask']}", a, b, f"the {what} is not the one its own table rows give", key=f"{x}{k}")
