"""C22: Bunch keeps its container contract."""
import itertools
import random

from .common import *

EXPLANATION = ("The class is interpreted on symbolic values (numbers, None, empty and non-empty text, lists, arrays, nested Bunches) through every sequence of up to two operations (three in the thorough run, sampled) from several starting contents; after each step the entries, both ways of reaching "
               "them, the errors for missing ones, copies, unpacking and all printing functions are compared with a plain dictionary on which the documented effect of the operation was carried out.")
ASSUMPTIONS = ["keys are text and not names of methods of the class"]

NAMES = ["k0", "k1", "k2", "k8", "k9"]
STARTS = {
    "empty": {},
    "one": {"k0": "v0"},
    "none and falsy": {"k0": "none", "k1": "zero", "k2": "empty"},
    "objects": {"k0": "v0", "k1": "lst", "k2": "bun"},
    "arrays": {"k2": "arr", "k1": "false", "k0": "none"},
    "long": {"k0": "long", "k1": "v1"},
    "nothing inside": {"k0": "ebun"},
}


def upd(d, new):
    out = dict(d)
    out.update(new)
    return out, None


def values(new, strict):
    def f(d):
        if strict and set(new) - set(d):
            return d, "KeyError"
        return upd(d, {k: v for k, v in new.items() if k in d})
    return f


def nones(new, strict):
    def f(d):
        if strict and set(new) - set(d):
            return d, "KeyError"
        return upd(d, {k: v for k, v in new.items() if k in d and d[k] == "none"})
    return f


def delete(k):
    def f(d):
        if k not in d:
            return d, "KeyError"
        return {x: v for x, v in d.items() if x != k}, None
    return f


OPS = {
    "b.k0 = v1": ("__setattr__", lambda d: upd(d, {"k0": "v1"})),
    "b.k9 = none": ("__setattr__", lambda d: upd(d, {"k9": "none"})),
    "b['k1'] = arr": ("__setattr__", lambda d: upd(d, {"k1": "arr"})),
    "setattr(b, 'k2', bun)": ("__setattr__", lambda d: upd(d, {"k2": "bun"})),
    "b.update_values({'k0': v2, 'k8': v3})": ("update_values", values({"k0": "v2", "k8": "v3"}, False)),
    "b.update_values(k0=v2, k8=v3, strict=False)": ("update_values", values({"k0": "v2", "k8": "v3"}, False)),
    "b.update_values({'k0': v2, 'k1': v2}, {'k0': v3}, k1=zero)": ("update_values", values({"k0": "v3", "k1": "zero"}, False)),
    "b.update_values(k1=none, k8=v3, strict=True)": ("update_values", values({"k1": "none", "k8": "v3"}, True)),
    "b.update_values({'k0': v2, 'k1': empty}, strict=True)": ("update_values", values({"k0": "v2", "k1": "empty"}, True)),
    "b.update_values({'k0': v2, 'k8': v1}, k1=v3, strict=True)": ("update_values", values({"k0": "v2", "k8": "v1", "k1": "v3"}, True)),
    "b.update_values()": ("update_values", values({}, False)),
    "b.update_None({'k0': v2, 'k1': v3, 'k2': v2, 'k8': v3})": ("update_None", nones({"k0": "v2", "k1": "v3", "k2": "v2", "k8": "v3"}, False)),
    "b.update_None({'k0': v2}, k0=v3, k9=v1)": ("update_None", nones({"k0": "v3", "k9": "v1"}, False)),
    "b.update_None({'k0': v2, 'k8': v3}, strict=True)": ("update_None", nones({"k0": "v2", "k8": "v3"}, True)),
    "b.update_None(k0=v2, strict=True)": ("update_None", nones({"k0": "v2"}, True)),
    "b = Bunch(b)": ("__init__", lambda d: (d, None)),
    "b = Bunch(b, k1=v2)": ("__init__", lambda d: upd(d, {"k1": "v2"})),
    "b = Bunch({'k0': v1}, b, k8=none)": ("__init__", lambda d: (dict({"k0": "v1"}, **d, **({} if "k8" in d else {"k8": "none"})) if "k8" not in d else dict(dict({"k0": "v1"}, **d), k8="none"), None)),
    "b = Bunch(**b)": ("__init__", lambda d: (d, None)),
    "b = Bunch(zip(list(b.keys()), list(b.values())))": ("__init__", lambda d: (d, None)),
    "b = Bunch(b.items())": ("__init__", lambda d: (d, None)),
    "del b['k0']": ("__init__", delete("k0")),
    "c = Bunch(b)\nc.k0 = v3\nc['k7'] = v3": ("__init__", lambda d: (d, None)),
    "c = b.copy()\nc['k0'] = v3": ("__init__", lambda d: (d, None)),
}


def configs(tier, seed):
    names = list(OPS)
    out = [dict(start=s, ops=()) for s in STARTS]
    for s in STARTS:
        out += [dict(start=s, ops=(a,)) for a in names]
    pairs = [dict(start=s, ops=p) for s in STARTS for p in itertools.product(names, repeat=2)]
    rnd = random.Random(seed)
    if tier == "quick":
        out += rnd.sample(pairs, 1200)
    else:
        out += pairs
        out += [dict(start=rnd.choice(list(STARTS)), ops=tuple(rnd.choice(names) for _ in range(n))) for n in (3, 4) for _ in range(3000)]
    # several histories are one unit of work
    n = 40 if tier == "quick" else 200
    return cf.named([dict(histories=out[i:i + n], n=i // n) for i in range(0, len(out), n)])


def run(I, c, rep):
    st = world.fresh_state(I, "utide.utilities")
    B = I.mods["utide.utilities"].env.get("Bunch")
    if not isinstance(B, Cls):
        rep.unsure("contract", "utide/utilities.py", "no class Bunch")
        return
    base = {n: world.scalar(n) for n in ("v0", "v1", "v2", "v3")}
    base.update(none=PYNONE, zero=num(0), false=num(False), empty=Known(""), long=Known("x" * 60), arr=world.base_arr("q", [world.TAX]), lst=I.np.mklist(st, []))
    s = spec(I, st, "bun = Bunch(a=v0, n=none)\nebun = Bunch()\n", mod="utide.utilities", Bunch=B, **base)
    if s.exc is not None:
        rep.bad("contract", "utide/utilities.py (Bunch.__init__)", f"cannot be built: {s.exc.name}: {s.exc.msg}", key="build")
        return
    st = s.st
    base.update(bun=s["bun"], ebun=s["ebun"])
    for h in c["histories"]:
        history(I, st, B, base, h, rep)


def line(B, meth):
    f = B.lookup(meth)
    n = getattr(getattr(f, "node", None), "lineno", None)
    return f"utide/utilities.py:{n if n is not None else '?'} (Bunch.{meth})"


def history(I, st, B, base, h, rep):
    d = dict(STARTS[h["start"]])
    vals = dict(base)
    s = spec(I, st, "b = Bunch(" + ", ".join(f"{k}={v}" for k, v in d.items()) + ")\n", mod="utide.utilities", Bunch=B, **vals)
    label = f"{h['start']}"
    if s.exc is not None:
        rep.bad("contract", line(B, "__init__"), f"Bunch of {label} raises {s.exc.name}", key="build")
        return
    last = "__init__"
    for op in h["ops"]:
        meth, model = OPS[op]
        want, exc = model(d)
        n = spec(I, s.st, op, mod="utide.utilities", Bunch=B, b=s.env["b"], **vals)
        label += " ; " + op.replace("\n", ", ")
        got = n.exc.name if n.exc is not None else None
        if got != exc:
            rep.bad("operation", line(B, meth), f"after {label}: {'raises ' + got if got else 'does not raise'}, expected {exc or 'no error'}", key=op)
            return
        s = n
        d, last = want, meth
    check(I, s, B, base, d, label, rep, last)


def check(I, s, B, base, d, label, rep, last):
    missing = [k for k in NAMES + ["k7"] if k not in d]
    src = "n = len(b)\nks = sorted(b.keys())\nfull = dict(b)\nun = {**b}\ncp = b.copy()\nbb = Bunch(b)\n"
    for k in d:
        src += f"i_{k} = b['{k}']\na_{k} = b.{k}\ng_{k} = getattr(b, '{k}')\nh_{k} = hasattr(b, '{k}') and '{k}' in b\nu_{k} = un['{k}']\nf_{k} = full['{k}']\nc_{k} = cp['{k}']\nd_{k} = bb.{k}\n"
    for k in missing:
        src += f"h_{k} = hasattr(b, '{k}') or '{k}' in b\nx_{k} = getattr(b, '{k}', 77)\n"
    s2 = spec(I, s.st, src, mod="utide.utilities", Bunch=B, b=s.env["b"])
    if s2.exc is not None:
        rep.bad("entries", line(B, last if s2.exc.name != "AttributeError" else "__getattr__"), f"after {label}: reading the entries raises {s2.exc.name}: {s2.exc.msg}", key=f"entries {last}")
        return
    where = line(B, last)
    n = s2["n"]
    v = n.val == len(d) if isinstance(n, Num) and n.val is not NOVAL else None
    rep.check(v, "entries", where, f"after {label}: has {getattr(n, 'val', '?')} entries instead of {len(d)}", key=f"number of entries {last}")
    for k, name in d.items():
        for x, what in (("i", "item"), ("a", "attribute"), ("g", "getattr"), ("u", "unpacked"), ("f", "dict()"), ("c", "copy()"), ("d", "Bunch()")):
            v = identical(I, s2.st, s2.env[f"{x}_{k}"], base[name])
            rep.check(v, "entries", where if x == "i" else line(B, "__getattr__" if x in "ag" else "__init__"), f"after {label}: {k} as {what} is not the value stored", key=f"{what} {last}")
        hv = s2[f"h_{k}"]
        rep.check(hv.val if isinstance(hv, Num) and hv.val is not NOVAL else None, "entries", line(B, "__getattr__"), f"after {label}: {k} is not reported as present", key="present")
    for k in missing:
        hv = s2[f"h_{k}"]
        rep.check(not hv.val if isinstance(hv, Num) and hv.val is not NOVAL else None, "missing", line(B, "__getattr__"), f"after {label}: {k} is reported as present", key=f"absent {last}")
        xv = s2[f"x_{k}"]
        rep.check(xv.val == 77 if isinstance(xv, Num) and xv.val is not NOVAL else None, "missing", line(B, "__getattr__"), f"after {label}: getattr with a default does not give the default for {k}", key="default")
    for k in missing[:2]:
        for src, exc in ((f"b.{k}", "AttributeError"), (f"b['{k}']", "KeyError")):
            e = spec(I, s2.st, src, mod="utide.utilities", Bunch=B, b=s.env["b"]).exc
            rep.check(e is not None and e.name == exc, "missing", line(B, "__getattr__"), f"after {label}: {src} {'raises ' + e.name if e else 'does not raise'}, expected {exc}", key=src[:2] + exc)
    show = I.mods["utide.utilities"].env.get("showmatbunch")
    for src, meth in (("x = str(b)", "formatted"), ("x = b.formatted(types=True)", "formatted"), ("x = b.formatted('{0!s} {1!s}')", "formatted"), ("x = show(b)", None)):
        e = spec(I, s2.st, src, mod="utide.utilities", Bunch=B, b=s.env["b"], show=show)
        if meth is None:
            where = f"utide/utilities.py:{getattr(getattr(show, 'node', None), 'lineno', '?')} (showmatbunch)"
        else:
            where = line(B, meth)
        if e.exc is None and d:
            again = spec(I, e.st, "n = len(b)\n" + "".join(f"j_{k} = b['{k}']\n" for k in d), mod="utide.utilities", Bunch=B, b=s.env["b"])
            same_ = [False] if again.exc is not None else [identical(I, again.st, again.env[f"j_{k}"], base[n]) for k, n in d.items()]
            rep.check(False if False in same_ else None if None in same_ else True, "printing", where, f"after {label}: {src[4:]} changes the entries", key=f"{src} changes")
        rep.check(e.exc is None, "printing", where, f"after {label}: {src[4:]} raises {e.exc.name if e.exc else ''}: {e.exc.msg if e.exc else ''}", key=f"{src} raises")


def identical(I, st, a, b):
    a, b = I.pick(a, st), I.pick(b, st)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, (Num, Arr)) and isinstance(b, (Num, Arr)):
        return tm.teq(I.info(st, a).term, I.info(st, b).term)[0]
    if isinstance(a, Known) and isinstance(b, Known):
        return a.v == b.v and type(a.v) is type(b.v)
    if isinstance(a, Unknown) or isinstance(b, Unknown) or isinstance(a, Choice) or isinstance(b, Choice):
        return None
    return False
