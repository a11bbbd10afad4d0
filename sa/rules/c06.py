"""C06: every documented option combination works from solve to reconstruct."""
from .common import *

EXPLANATION = ("Path-sensitive abstract interpretation of solve() followed by reconstruct() for a covering array of all documented option values, with arbitrary data (any number and kind of "
               "missing samples, odd and even lengths, arrays, lists, integers, masked arrays). Obligations: no path ends in an exception (name, attribute, type, key, index, shape errors); the coefficient "
               "structure has the fields the combination calls for and none that belong to others; reconstruct() accepts it with each selection criterion and returns h or u and v.")
ASSUMPTIONS = ["the series are long enough for the requested model", "lstsq, inv, svd and cholesky do not fail numerically"]

CRASH = {"NameError", "UnboundLocalError", "AttributeError", "TypeError", "KeyError", "IndexError", "ZeroDivisionError", "AssertionError", "RecursionError", "NonTermination", "NotImplementedError"}


def configs(tier, seed):
    cs = grid(tier, seed, ok=cf.valid)
    base = {"conf_int": "linear", "constit": "list", "t": "python"}
    extra = []
    for w in (False, True):
        extra += [dict(base, twodim=w, data=d, method=m) for d in ("lists", "integers", "float times, integer data", "clean", "tuple") for m in ("ols", "robust")]
        extra += [dict(base, twodim=w, parity=1, method=m, order_constit="frequency") for m in ("ols", "robust")]
        extra += [dict(base, twodim=w, verbose=True, white=b, conf_int=k) for b in (True, False) for k in ("linear", "MC")]
        extra += [dict(base, twodim=w, MC_n=5, conf_int="MC"), dict(base, twodim=w, Rayleigh_min=0.9, constit="auto")]
        extra += [dict(base, twodim=w, method="robust", robust_kw=kw) for kw in ({}, {"tol": 0.01}, {"maxit": 3}, {"weight_function": "bisquare"}, {"weight_function": "fair"}, {"weight_function": "huber"}, {"tune": 2.0})]
        extra += [dict(base, twodim=w, mc_infer=True, conf_int="MC", infer=i) for i in ("one", "many")]
        extra += [dict(base, twodim=w, approximate=True, infer=i, conf_int=k) for i in ("one", "many") for k in ("linear", "none")]
        extra += [dict(base, twodim=w, epoch_text=e, t=None) for e in ("2000-01-01", "1900-01-01 00:00:00")]
        extra += [dict(base, twodim=w, tr=a, t=b, conf_int="none") for a in ("python", "matlab", "datetime", "date") for b in ("python", "datetime", "date")]
        extra += [dict(base, twodim=w, t="none")]
    return cs + cf.named(extra)


def problem(rep, q, what, key=None):
    """Reports exceptions of a run; True when it went through."""
    if q.exc is not None:
        if q.unknown and q.exc.name not in CRASH:
            rep.unsure("completes", what, f"{q.exc.name}: {q.exc.msg}")
        else:
            rep.bad("completes", site(q.exc.loc or ""), f"{what} raises {q.exc.name}: {str(q.exc.msg)[:160]}", key=key)
        return False
    n = 0
    for e in q.events:
        if e["kind"] == "partial-raise":
            x = e["exc"]
            if x.name in CRASH and not q.unknown:
                n += 1
                rep.bad("completes", site(x.loc or e), f"{what} raises {x.name}: {str(x.msg)[:120]} on some path", key=key)
            else:
                rep.unsure("completes", what, f"{x.name} on some path at {site(x.loc or e)}")
    if not n:
        rep.ok("completes", what)
    return not n


ROBUST = {"b", "w", "weight_function", "rms_resid", "ols_b", "ols_rms_resid", "iterations", "s", "leverage"}


def wanted(c):
    """(required, forbidden) paths."""
    two, ci = c.get("twodim", False), c.get("conf_int", "linear") != "none"
    trend, rob = c.get("trend", True), c.get("method") == "robust"
    one_f, two_f = {"A"}, {"Lsmaj", "Lsmin", "theta"}
    yes = {("name",), ("g",), ("aux",), ("weights",), ("aux", "frq"), ("aux", "lat"), ("aux", "lind"), ("aux", "reftime"), ("aux", "opt")}
    no = set()
    yes |= {(f,) for f in (two_f if two else one_f)}
    no |= {(f,) for f in (one_f if two else two_f)}
    cis = {(f + "_ci",) for f in ({"g"} | (two_f if two else one_f))} | {("SNR",), ("diagn",)}
    allci = {(f + "_ci",) for f in {"g"} | two_f | one_f}
    if ci:
        yes |= cis | {("PE",)}
        no |= allci - cis
    else:
        no |= allci | {("SNR",)}
    if c.get("order_constit") in (None, "PE"):
        yes.add(("PE",))
    means, slopes = ({("umean",), ("vmean",)}, {("uslope",), ("vslope",)}) if two else ({("mean",)}, {("slope",)})
    om, osl = ({("mean",)}, {("slope",)}) if two else ({("umean",), ("vmean",)}, {("uslope",), ("vslope",)})
    yes |= means
    no |= om | osl
    if trend:
        yes |= slopes
    else:
        no |= slopes
    if rob:
        yes |= {("rf",)} | {("rf", k) for k in ROBUST}
    else:
        no.add(("rf",))
    return yes, no


def own_data(I, c, st):
    """Arguments t, u, v of unusual types."""
    d, two = c["data"], c.get("twodim")
    names = ["u"] + (["v"] if two else [])
    if d in ("lists", "tuple"):
        out = [world.list_series(I, st, n) for n in ["t"] + names]
        if d == "tuple":
            out = [Ref("tuple", o.root, o.oid) for o in out]
        return out
    if d == "clean":
        return [world.series("t", world.TAX, (), 0)] + [world.series(n, world.TAX, ()) for n in names]
    return [world.series("t", world.TAX, (), 0, dt="i" if d == "integers" else "f")] + [world.series(n, world.TAX, (), dt="i") for n in names]


def solve(I, c):
    if c.get("data"):
        st = world.fresh_state(I, "utide._solve")
        tm.PARITY[world.TAX] = 0
        kw = {k: world.opt_value(I, st, c[k]) for k in ("conf_int", "method") if k in c}
        kw.update(verbose=num(False), lat=world.scalar("lat", re=world.LATR), epoch=Known("python"), constit=world.strlist(I, st, cf.NAMES, "arg:constit"))
        return world.call(I, "utide._solve", "solve", own_data(I, c, st), kw, st)
    if c.get("approximate"):
        st = world.fresh_state(I, "utide._solve")
        inf = world.infer_arg(I, st, cf.INFER[c["infer"]], c.get("twodim"), "inst")
        cell = st.heap[inf.oid].copy()
        cell.d["approximate"] = num(True)
        st.heap[inf.oid] = cell
        return world.run_solve(I, c.get("twodim"), t="python", infer=inf, st=st, verbose=False, conf_int=c["conf_int"], constit=world.strlist(I, st, cf.NAMES, "arg:constit"))
    if c.get("epoch_text"):
        st = world.fresh_state(I, "utide._solve")
        return world.run_solve(I, c.get("twodim"), t=None, st=st, verbose=False, conf_int=c["conf_int"], constit=world.strlist(I, st, cf.NAMES, "arg:constit"), epoch=c["epoch_text"])
    d = dict(c)
    if d.get("t") == "none":
        d["t"] = None
    return cf.run_solve(I, d)


def run(I, c, rep):
    r = solve(I, c)
    if c.get("mc_infer"):
        if r.exc is not None and r.exc.name == "NotImplementedError":
            rep.ok("documented refusal", "solve")
        else:
            rep.check(None if r.exc is None and r.unknown else False if r.exc is None else None, "documented refusal", "solve", "Monte Carlo intervals with inference are not refused", key="MC")
        return
    key = "infer.approximate" if c.get("approximate") else None
    if not problem(rep, r, "solve", key):
        return
    yes, no = wanted(c)
    for p in sorted(yes):
        v = field(r, *p)
        d = maybe(r, p)
        if v is None and not open_ended(r, p):
            rep.bad("fields", "solve() result", f"no field {name_of(p)}", key=name_of(p))
        elif v is None:
            rep.unsure("fields", name_of(p), "not resolved")
        elif d:
            rep.unsure("fields", name_of(p), "conditional")
        else:
            rep.ok("fields", name_of(p))
    for p in sorted(no):
        v = field(r, *p)
        if v is not None and not isinstance(v, Unknown) and not maybe(r, p):
            rep.bad("fields", field_site(r, p), f"field {name_of(p)} is not called for", key=name_of(p))
        else:
            rep.ok("fields", "no " + name_of(p))
    two = c.get("twodim", False)
    variants = [("default", {}), ("all", dict(min_SNR=0, min_PE=0)), ("PE only", dict(min_SNR=0, min_PE=1.5))]
    if c.get("constit") == "list":
        variants.append(("named", "names"))
        variants.append(("none named", "other"))
    for what, opts in variants:
        st = r.st.copy()
        if opts == "names":
            opts = dict(constit=world.strlist(I, st, cf.NAMES[:2], "arg:constit"))
        elif opts == "other":
            opts = dict(constit=world.strlist(I, st, ["Q9"], "arg:constit"))
        if c.get("t") in (None, "none") or c.get("epoch_text"):
            opts["epoch"] = c.get("epoch_text") or None
            q = world.run_reconstruct(I, r.value, st, t=None, **opts) if c.get("epoch_text") else world.run_reconstruct(I, r.value, st, t=None, verbose=False)
        else:
            q = cf.run_reconstruct(I, dict(c), r, st, **opts)
        if not problem(rep, q, f"reconstruct ({what})"):
            continue
        for f, w in (("u", two), ("v", two), ("h", not two)):
            v = field(q, f)
            if w:
                rep.check(True if isinstance(v, Arr) else None if v is not None or q.unknown else False, "fields", f"reconstruct() {f}", f"no field {f}", key="reconstruct." + f)
            else:
                rep.check(v is None if not isinstance(v, Unknown) else None, "fields", f"reconstruct() no {f}", f"field {f} is not called for", key="reconstruct." + f)


def cell_of(run, path):
    v = field(run, *path[:-1]) if len(path) > 1 else run.I.pick(run.value, run.st)
    c = run.st.heap.get(getattr(v, "oid", None))
    return c if isinstance(c, DictCell) else None


def maybe(run, path):
    c = cell_of(run, path)
    return c is not None and path[-1] in c.maybe


def open_ended(run, path):
    """Whether the container may have entries the analysis does not name."""
    c = cell_of(run, path)
    return c is None or c.rest is not None
