"""C23: the public constituent tables agree with each other."""
import os
from struct import error as struct_error

from .. import npz, tables
from .common import *

EXPLANATION = ("The package is loaded in the analysis over a table of five constituents with symbolic frequencies; the name-to-index table, cycles_per_hour and hours_per_cycle it builds are compared entry by entry with that table, and utide's public names must be those same objects. "
               "solve() is then interpreted over the same table for named, inferred and automatically chosen constituents: in the solution the position in the table and the name of every entry must belong together, and the frequency must be that of its own name. "
               "The stored table is decoded without running the package and its rows are checked against each other: these are the facts about the table the other rules take for granted.")
ASSUMPTIONS = ["reading the file and unpacking the archive's structures are trusted"]

NAMES = tables.NAMES


def configs(tier, seed):
    out = [dict(part="tables"), dict(part="data"), dict(part="convert")]
    for two in (False, True):
        for names, inf in ((["DD4", "AA", "C3"], None), (["C3", "DD4"], "small"), (["BBB", "EE", "AA"], "small"), (["BBB", "DD4"], "two"), (["C3"], "shared")):
            for order in ("frequency", "list"):
                if tier != "quick" or order == "frequency" or inf == "small":
                    out.append(dict(part="solve", twodim=two, constit="list", names=names, conf_int="none", order_constit=order, infer=inf, phase="Greenwich", nodal=True))
        out.append(dict(part="solve", twodim=two, constit="auto", conf_int="none", order_constit=None, phase="Greenwich", nodal=True))
    return cf.named(out)


cf.INFER.setdefault("small", [("EE", "AA")])
cf.INFER.setdefault("two", [("EE", "AA"), ("C3", "AA")])
cf.INFER.setdefault("shared", [("AA", "DD4"), ("EE", "BBB")])


def line(I, name):
    """Statement of the module that makes a public table."""
    import ast

    m = I.mods["utide._ut_constants"]
    for n in ast.walk(m.tree) if getattr(m, "tree", None) is not None else ():
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            return f"utide/_ut_constants.py:{n.lineno} ({name})"
    return f"utide/_ut_constants.py ({name})"


def run(I, c, rep):
    if c["part"] == "data":
        return data(I, rep)
    J = tables.interp(I.root)
    if c["part"] == "tables":
        return public(J, rep)
    if c["part"] == "convert":
        return convert(J, rep)
    solved(J, c, rep)


def public(I, rep):
    st = world.fresh_state(I, "utide._ut_constants")
    env = I.mods["utide._ut_constants"].env
    top = I.mods["utide"].env
    for n in ("ut_constants", "constit_index_dict", "cycles_per_hour", "hours_per_cycle"):
        a, b = (I.pick(e[n], st) if n in e else None for e in (env, top))
        rep.check(a is not None and isinstance(b, Ref) and a == b or (None if isinstance(b, Unknown) else False), "exported", line(I, n), f"utide.{n} is not the table of _ut_constants", key=n)
    for n in ("constit_index_dict", "cycles_per_hour", "hours_per_cycle"):
        v = I.pick(env.get(n), st)
        cell = st.heap.get(getattr(v, "oid", None))
        if not isinstance(cell, DictCell):
            rep.unsure("same names", line(I, n), "not a dictionary the analysis can follow")
            continue
        if getattr(cell, "rest", None) is not None:
            rep.unsure("same names", line(I, n), "entries the analysis cannot name")
            continue
        got = sorted(map(str, cell.d))
        rep.check(got == sorted(NAMES), "same names", line(I, n), f"the table lists {got} and the constants {sorted(NAMES)}", key=n)
    for k, n in enumerate(NAMES):
        for t, x in (("constit_index_dict", f"{k}"), ("cycles_per_hour", f"const.freq[{k}]")):
            one(I, st, rep, t, k, f"got = {t}['{n}']\nwant = {x}\n", f"the entry of {n} is not its own")
        one(I, st, rep, "hours_per_cycle", k, f"got = hours_per_cycle['{n}'] * const.freq[{k}]\nwant = 1.0\n", f"the entry of {n} is not the reciprocal of its frequency")


def one(I, st, rep, table, k, src, detail):
    s = spec(I, st, "const = ut_constants.const\n" + src, mod="utide._ut_constants")
    if s.exc is not None:
        rep.check(False if s.exc.name in ("KeyError", "IndexError") else None, "own entry", line(I, table), f"{detail}: raises {s.exc.name}", key=f"{table}")
        return
    same(rep, "own entry", line(I, table), s.term("got"), s.term("want"), detail, key=f"{table}")


def text(p):
    """Position in NAMES of a constant text, or None."""
    x = str(p)
    for k, n in enumerate(NAMES):
        if x == f"const({n!r})":
            return k
    return None


def solved(I, c, rep):
    r = cf.run_solve(I, {k: v for k, v in c.items() if k not in ("part",)})
    if r.value is None:
        if c["infer"] == "shared" and c.get("infer") and r.exc is not None and r.exc.name == "ValueError":
            return
        rep.unsure("solution", "solve", f"raises {r.exc}")
        return
    s = spec(I, r.st, "a = c.aux.lind\nb = c.name\nf = c.aux.frq\nn = ut_constants.const.name[a]\ng = ut_constants.const.freq[a]\n", mod="utide._ut_constants", c=r.value)
    if s.exc is not None:
        rep.unsure("solution", "solve", f"raises {s.exc}")
        return
    same(rep, "solution names", field_site(r, ("name",)), s.term("b"), s.term("n"), "the name of an entry is not that of its position in the table", key="name")
    if c["constit"] != "list":
        return
    t = s.term("b")
    got = sorted(x for x in (text(p) for g, p in t.alts) if x is not None)
    want = {NAMES.index(n) for n in c["names"]} | {NAMES.index(x) for p in (cf.INFER[c["infer"]] if c["infer"] else ()) for x in p}
    if all(text(p) is not None for g, p in t.alts):
        rep.check(set(got) == want, "solution names", field_site(r, ("name",)), f"asked for {sorted(NAMES[k] for k in want)}, the solution lists {[NAMES[k] for k in got]}", key="asked")
    else:
        rep.unsure("solution names", field_site(r, ("name",)), "names not concrete")


RAW = """
tab = Bunch(name=np.array(["Z0  ", "SA  ", "ALP1", " X"]), kmpr=np.array(["M2  ", "MM "]), freq=freq, doodson=dood)
raw = Bunch(const=tab, ut_version="1p0", sat=Bunch(amprat=freq))
out = convert_unicode_arrays(raw)
same_keys = sorted(out) == ["const", "sat", "ut_version"] and sorted(out.const) == ["doodson", "freq", "kmpr", "name"]
v = out.ut_version
n0, n1, n2, n3 = out.const.name
k0, k1 = out["const"]["kmpr"]
f = out.const.freq
d = out.const.doodson
a = out.sat.amprat
"""


def convert(I, rep):
    """Names lose their trailing blanks only; everything else stays what it is."""
    st = world.fresh_state(I, "utide.utilities")
    f = I.mods["utide.utilities"].env.get("convert_unicode_arrays")
    where = f"utide/utilities.py:{getattr(getattr(f, 'node', None), 'lineno', '?')} (convert_unicode_arrays)"
    e = dict(freq=world.base_arr("freq", [tables.K], deps=NONE), dood=world.base_arr("dood", [tables.K, world.DOODSON6], deps=NONE))
    keep = I.summaries.pop("convert_unicode_arrays", None)
    try:
        s = spec(I, st, RAW, mod="utide.utilities", **e)
    finally:
        if keep is not None:
            I.summaries["convert_unicode_arrays"] = keep
    if s.exc is not None:
        rep.unsure("conversion", where, f"raises {s.exc.name}: {s.exc.msg}")
        return
    b = s["same_keys"]
    rep.check(b.v if isinstance(b, Known) else bool(b.val) if isinstance(b, Num) and b.val is not NOVAL else None, "conversion", where, "not the same entries", key="entries")
    for x, want in dict(v="1p0", n0="Z0", n1="SA", n2="ALP1", n3=" X", k0="M2", k1="MM").items():
        got = s[x]
        got = got.v if isinstance(got, Known) else I.np.const_text(got)
        rep.check(None if got is None else got == want, "conversion", where, f"text {want!r} becomes {got!r}", key="text")
    for x, w in (("f", "freq"), ("d", "dood"), ("a", "freq")):
        same(rep, "conversion", where, s.term(x), I.info(st, e[w]).term, "numbers of the table change", key="numbers")


# cycles per day of the six arguments the Doodson numbers multiply (mean values)
RATES = (0.9661368, 0.0366011, 0.0027379, 0.0003094, 0.0001471, 0.0000001)


def data(I, rep):
    where = "utide/data/ut_constants.npz"
    try:
        d = npz.load(os.path.join(I.root, where))
        c, sh, sat = ({k: v for k, v in d[n].items()} for n in ("const", "shallow", "sat"))
        col = lambda t, n: t[n][1]
        names = [x.rstrip() for x in col(c, "name")]
        n = len(names)
        num_ = {k: col(c, k) for k in ("freq", "df", "semi", "ishallow", "nshallow")}
        dood = [col(c, "doodson")[6 * i : 6 * i + 6] for i in range(n)]
        si, sn, sc = (col(sh, k) for k in ("iconst", "iname", "coef"))
        ai, al, aa, ap, ad = (col(sat, k) for k in ("iconst", "ilatfac", "amprat", "phcorr", "deldood"))
        bc, bs, ba = ({len(v[1]) if len(v[0]) == 1 else v[0][0] for v in t.values()} for t in (c, sh, sat))
    except (OSError, KeyError, ValueError, struct_error, npz.pickle.UnpicklingError) as e:
        rep.unsure("stored table", where, f"not readable: {type(e).__name__} {e}")
        return

    def need(ok, rule, row, detail):
        rep.check(bool(ok), rule, f"{where} {row}", detail, key=f"{rule} {row}")

    fin = lambda x: x == x and abs(x) < 1e300
    need(len(bc) == len(bs) == len(ba) == 1, "columns", "all tables", "columns of different lengths")
    need(len(set(names)) == n and all(names), "names", "const.name", "an empty or repeated name")
    kids = {}
    for r, k in enumerate(si):
        kids.setdefault(k - 1, []).append(r)
    for k, nm in enumerate(names):
        fr = num_["freq"][k]
        need(fin(fr) and fr >= 0 and fin(num_["df"][k]) and num_["df"][k] >= 0, "frequencies", nm, "frequency or separation not a number from zero on")
        nan = not fin(num_["ishallow"][k])
        need(nan == (not fin(num_["nshallow"][k])) == (k not in kids), "shallow rows", nm, "shallow-water columns and rows disagree")
        if nan:
            need(all(map(fin, dood[k])) and fin(num_["semi"][k]), "direct rows", nm, "Doodson numbers missing")
            need(abs(sum(a * b for a, b in zip(dood[k], RATES)) / 24 - fr) < 3e-8, "direct rows", nm, "the frequency is not that of the Doodson numbers")
        elif k in kids:
            rows = kids[k]
            need(rows == list(range(int(num_["ishallow"][k]) - 1, int(num_["ishallow"][k]) - 1 + int(num_["nshallow"][k]))), "shallow rows", nm, "first row and number of rows are not those of the shallow-water table")
            par = [sn[r] - 1 for r in rows]
            need(all(0 <= p < n and not fin(num_["ishallow"][p]) for p in par) and all(fin(sc[r]) for r in rows), "shallow rows", nm, "a parent is not a directly defined constituent")
            if all(0 <= p < n for p in par):
                need(abs(sum(sc[r] * num_["freq"][p] for r, p in zip(rows, par)) - fr) < 3e-8, "shallow rows", nm, "the frequency is not that of its parents")
    need(all(0 <= k < n for k in kids), "shallow rows", "shallow.iconst", "row of no constituent")
    for r, k in enumerate(ai):
        ok = 1 <= k <= n and k - 1 not in kids and al[r] in (0, 1, 2) and fin(aa[r]) and 0 <= aa[r] <= 1 and fin(ap[r]) and 0 <= ap[r] <= 1 and all(map(fin, ad[3 * r : 3 * r + 3]))
        need(ok and (r == 0 or ai[r - 1] <= k), "satellite rows", f"sat row {r}", "satellite of no directly defined constituent, out of range, or out of order")
