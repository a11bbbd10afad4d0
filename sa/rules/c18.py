"""C18: the inference constraint is honoured in the solution."""
from .common import *

EXPLANATION = ("solve() is interpreted with symbolic ratios and offsets for several listings of references and inferred constituents (one to three references' worth, in different orders, some also requested as ordinary constituents). "
               "In the solution, the complex amplitude (each rotary component for vectors) of every inferred constituent, rebuilt from the reported ellipse, must have the normal form ratio * exp(i offset) times that of its reference. "
               "The model matrix given to the solver is compared column by column with that of a second analysis that fits every constituent independently: the reference's columns must be its own plus ratio, offset times those of its "
               "inferred constituents, and no other column may mention a reference or inferred constituent.")
ASSUMPTIONS = ["exact arithmetic", "exact (not approximate) inference: the approximate variant is unfinished and raises, see C06"]


def configs(tier, seed):
    out = []
    for two in (False, True):
        for inf in ("one", "dict", "many", "swap", "both"):
            for me, tr, nod, ph in (("ols", True, False, "raw"), ("robust", False, True, "Greenwich"), ("ols", False, "linear_time", "linear_time")) if tier != "quick" or inf in ("many", "both") else (("ols", True, False, "raw"),):
                out.append(dict(twodim=two, infer=inf, method=me, trend=tr, nodal=nod, phase=ph, conf_int="none", constit="list", order_constit="list", kinds="none" if nod else "all"))
        out.append(dict(twodim=two, infer="many", method="ols", trend=True, nodal=True, phase="Greenwich", conf_int="linear", white=True, constit="list", order_constit="frequency", kinds="none"))
        out.append(dict(twodim=two, infer="swap", method="ols", trend=True, nodal=True, phase="Greenwich", conf_int="none", constit="list", order_constit="list", kinds="none", t="datetime"))
        for k in ("auto", "abstract"):
            for inf in ("one", "many"):
                out.append(dict(twodim=two, infer=inf, method="ols", trend=True, nodal=False, phase="raw", conf_int="none", constit=k, order_constit=None, kinds="none"))
    return cf.named(out)


ONE = """
nm = list(coef['name'])
i = nm.index(inferred)
k = nm.index(reference)
n_i = sum([1 if x == inferred else 0 for x in nm])
n_k = sum([1 if x == reference else 0 for x in nm])
"""
SCALAR = """
zi = coef['A'][i] * np.exp(-1j * np.pi / 180 * coef['g'][i])
zk = coef['A'][k] * np.exp(-1j * np.pi / 180 * coef['g'][k])
want = ratio * np.exp(1j * np.pi / 180 * offset) * zk
"""
VECTOR = """
pi_ = (coef['Lsmaj'][i] + coef['Lsmin'][i]) / 2 * np.exp(1j * np.pi / 180 * (coef['theta'][i] - coef['g'][i]))
pk = (coef['Lsmaj'][k] + coef['Lsmin'][k]) / 2 * np.exp(1j * np.pi / 180 * (coef['theta'][k] - coef['g'][k]))
mi = (coef['Lsmaj'][i] - coef['Lsmin'][i]) / 2 * np.exp(1j * np.pi / 180 * (coef['theta'][i] + coef['g'][i]))
mk = (coef['Lsmaj'][k] - coef['Lsmin'][k]) / 2 * np.exp(1j * np.pi / 180 * (coef['theta'][k] + coef['g'][k]))
want_p = ratio * np.exp(1j * np.pi / 180 * offset) * pk
want_m = ratio2 * np.exp(-1j * np.pi / 180 * offset2) * mk
"""


def constants(spec_, two):
    n = len(spec_)
    return lambda j: dict(ratio=f"amp_ratio{j}", offset=f"phase_offset{j}", **(dict(ratio2=f"amp_ratio{j + n}", offset2=f"phase_offset{j + n}") if two else {}))


def scalars(I, st, names):
    return {k: world.scalar(n, deps=frozenset([n.rstrip("0123456789")])) for k, n in names.items()}


def run(I, c, rep):
    two = c["twodim"]
    r = cf.run_solve(I, c)
    if r.value is None:
        rep.unsure("relation", "solve", f"raises {r.exc}")
        return
    prs = cf.INFER[c["infer"]]
    if c["constit"] != "list":
        chosen(r, rep, {n for p in prs for n in p})
        return
    cons = constants(prs, two)
    fs = ("Lsmaj", "Lsmin", "theta", "g") if two else ("A", "g")
    for j, (inf, ref) in enumerate(prs):
        if c["order_constit"] != "list":
            break
        s = spec(I, r.st, ONE + (VECTOR if two else SCALAR), coef=r.value, inferred=Known(inf), reference=Known(ref), **scalars(I, r.st, cons(j)))
        if s.exc is not None:
            rep.unsure("relation", field_site(r, (fs[0],)), f"{inf}: {s.exc}")
            continue
        for x, y, what in (("pi_", "want_p", "positive rotary component"), ("mi", "want_m", "negative rotary component")) if two else (("zi", "want", "complex amplitude"),):
            same(rep, "relation", field_site(r, (fs[0],)), s.term(x), s.term(y), f"the {what} of inferred {inf} is not ratio and offset times that of its reference {ref}", f"{what}")
        for n, who in (("n_i", inf), ("n_k", ref)):
            k = I.info(s.st, s[n]).term.single() if isinstance(s[n], Num) else None
            k = k.const() if k is not None else None
            k = int(k[0]) if k is not None else None
            rep.check(None if k is None else k == 1, "listed once", field_site(r, ("name",)), f"{who} appears {k} times in the solution", "name")
    matrix(I, c, r, rep, prs, cons)


def chosen(r, rep, names):
    """An arbitrary or automatic choice of constituents leaves out those tied
    by inference."""
    e = next((e for e in r.events if e["kind"] == "lstsq" and e["Baxes"] is not None), None)
    ax = e["Baxes"][1] if e and len(e["Baxes"]) == 2 else None
    if ax is None or ax[0] != "cat":
        rep.unsure("fitted once", "solve", "columns of the model matrix not known")
        return
    for part in ax[1]:
        if part[0] in ("one", "lit"):
            continue
        left = names - strings(part, names)
        exact = True
        x = part
        while x[0] in ("flt", "pr", "perm"):
            exact = exact and (x[0] != "flt" or len(x) > 2 and not tm.imprecise(x[2]))
            x = x[1]
        rep.check(not left if not left or exact and x[0] == "base" else None, "fitted once", site(e), f"nothing keeps {sorted(left)}, tied to another constituent by inference, from being chosen and fitted by columns of their own", "selection")


def strings(x, among):
    """Constituent names a value is computed from."""
    out, seen = set(), set()

    def go(y):
        if isinstance(y, str):
            y = y.strip("'\"")
            if y in among:
                out.add(y)
        elif isinstance(y, tm.Term):
            for _, p in y.alts:
                go(p)
        elif isinstance(y, tm.Poly):
            for a in y.atoms():
                go(a)
        elif isinstance(y, tm.Atom):
            if y not in seen:
                seen.add(y)
                go(y.key)
                go(y.axes)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                go(z)

    go(x)
    return out


def columns(I, r):
    e = next((e for e in r.events if e["kind"] == "lstsq" and e["B"] is not None), None)
    if e is None or len(e["Baxes"]) != 2 or e["Baxes"][1][0] != "lit":
        return None
    B = I.newarr(list(e["Baxes"]), "c", e["B"])
    out = []
    for j in range(e["Baxes"][1][1]):
        s = spec(I, r.st, f"x = B[:, {j}]", B=B)
        if s.exc is not None or not isinstance(s["x"], Arr):
            return None
        out.append((s["x"].axes, I.info(s.st, s["x"])))
    return e, out


def matrix(I, c, r, rep, prs, cons):
    names = cf.all_names(c)
    got = columns(I, r)
    full = cf.run_solve(I, dict(c, infer=None, names=names))
    ref = columns(I, full) if full.value is not None else None
    if got is None or ref is None:
        rep.unsure("model", "solve", "columns of the model matrix not known")
        return
    e, cols = got
    where = site(e)
    base = {}
    for ax, i in ref[1]:
        ns = strings(i.term, set(names))
        if len(ns) == 1:
            base.setdefault(ns.pop(), []).append((ax, i))
    if any(len(base.get(n, ())) != 2 for n in names):
        rep.unsure("model", where, "columns of independent constituents not identified")
        return
    refs = {}
    for j, (inf, rf) in enumerate(prs):
        refs.setdefault(rf, []).append((inf, j))
    dependent = set(refs) | {i for i, _ in prs}
    found = {}
    for ax, i in cols:
        ns = frozenset(strings(i.term, set(names)))
        if ns:
            found.setdefault(ns, []).append(i)
    for n in names:
        own = found.get(frozenset([n]), [])
        if n in dependent:
            rep.check(not own, "fitted once", where, f"{n} is tied to another constituent by inference and also fitted by columns of its own", n)
        else:
            rep.check(len(own) == 2, "fitted once", where, f"{n} is fitted by {len(own)} columns", n)
    for rf, infs in refs.items():
        want = frozenset([rf] + [i for i, _ in infs])
        have = [x for ns, x in found.items() if rf in ns and ns != frozenset([rf])]
        if len(have) != 1 or len(have[0]) != 2 or found.get(want) is not have[0]:
            rep.check(False, "contains inferred", where, f"the columns of reference {rf} are made of {sorted(sorted(ns) for ns in found if rf in ns)}, not of {sorted(want)}", rf)
            continue
        rep.ok("contains inferred", where)
        exp = expected(I, r, rf, infs, base, cons, c["twodim"])
        if exp is None:
            rep.unsure("model", where, "not evaluated")
            continue
        vs = [[tm.teq(x.term, y)[0] for x, y in zip(have[0], o)] for o in (exp, exp[::-1])]
        v = True if any(all(z is True for z in q) for q in vs) else None if any(None in q and False not in q for q in vs) else False
        rep.check(v, "model", where, f"the columns of reference {rf} do not contain {sorted(i for i, _ in infs)} with the given ratio and offset", rf)


def expected(I, r, rf, infs, base, cons, two):
    """Positive and negative frequency columns of a reference."""
    bind = {}
    pos, neg = ["P0"], ["N0"]
    for s, n in [("0", rf)] + [(str(k + 1), i) for k, (i, _) in enumerate(infs)]:
        for p, (ax, i) in zip("PN", base[n]):
            bind[p + s] = I.newarr(list(ax), "c", i)
    for k, (_, j) in enumerate(infs):
        for a, b in scalars(I, r.st, cons(j)).items():
            bind[f"{a}_{k}"] = b
        q = "2" if two else ""
        pos.append(f"ratio_{k} * np.exp(1j * np.pi / 180 * offset_{k}) * P{k + 1}")
        # the inferred coefficient of exp(-i w t) is Rm times the reference's
        neg.append(f"ratio{q}_{k} * np.exp(-1j * np.pi / 180 * offset{q}_{k}) * N{k + 1}")
    s = spec(I, r.st, "a = " + " + ".join(pos) + "\nb = " + " + ".join(neg), **bind)
    if s.exc is not None:
        return None
    return [s.term("a"), s.term("b")]
