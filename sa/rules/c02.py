"""C02: package state is neither changed nor handed out."""
from .common import *

EXPLANATION = ("Interprocedural effect and escape analysis by abstract interpretation: no statement reachable from solve() or reconstruct() stores into an object that "
               "is reachable from a module's globals, rebinds a global, or sets an attribute of a function or module; and the storage reachable from the returned "
               "structures is disjoint from the storage reachable from the module globals (no view or alias of a package table is handed out). Covering array of option combinations.")
ASSUMPTIONS = ["mutable objects of the package are created at import time or stored in module globals, class attributes or default arguments"]


def configs(tier, seed):
    return grid(tier, seed) + [{"name": f"refused {b}", "bad": b, "conf_int": "none"} for b in ("conf_int", "method", "order_constit", "unknown")]


def global_storage(I, st):
    out = {}
    for mn, mod in I.mods.items():
        for k, v in mod.env.items():
            if isinstance(v, (Ref, Arr, Choice)):
                for o, p in world.reachable(I, st, v).items():
                    out.setdefault(o, f"{mn}.{k}" + "".join("." + x for x in p))
            elif isinstance(v, Func):
                for d in list(getattr(v, "defaults", None) or []) + list((getattr(v, "kwdefaults", None) or {}).values()):
                    if isinstance(d, (Ref, Arr)):
                        for o, p in world.reachable(I, st, d).items():
                            out.setdefault(o, f"default argument of {mn}.{k}")
    return out


def judge(I, rep, r, what):
    n = 0
    for e in r.events:
        if e["kind"] in ("global-write", "ext-write"):
            n += 1
            rep.bad("no-global-write", site(e), f"{what}: {e.get('what', '')} {e.get('name', '')}")
        elif e["kind"] == "mutate":
            for x in e["root"]:
                if not str(x).startswith("arg:"):
                    n += 1
                    rep.bad("no-global-write", site(e), f"{what}: {e['what']} writes {x}", key=str(x))
    if not n:
        rep.ok("no-global-write", what)
    if r.value is not None:
        glob = global_storage(I, r.st)
        hit = 0
        for o, p in world.reachable(I, r.st, r.value).items():
            if o in glob:
                hit += 1
                rep.bad("no-shared-storage", name_of(p) or "result", f"{what}: result entry {name_of(p)} shares storage with {glob[o]}", key=name_of(p))
        if not hit:
            rep.ok("no-shared-storage", what)


def run(I, c, rep):
    if "bad" in c:
        o = {c["bad"]: "bogus"} if c["bad"] != "unknown" else {}
        judge(I, rep, cf.run_solve(I, dict(c, **o)), "solve refused")
        return
    r = cf.run_solve(I, c)
    judge(I, rep, r, "solve")
    if r.value is None:
        rep.unsure("analysis", "solve", f"raises {r.exc}")
        return
    q = cf.run_reconstruct(I, c, r)
    judge(I, rep, q, "reconstruct")
