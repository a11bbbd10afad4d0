"""C03: determinism."""
from .common import *

EXPLANATION = ("Taint analysis on the abstract interpretation of solve() and reconstruct(): sources are random generators, clock, environment, files, object identity and hash, "
               "iteration over sets and uninitialised memory; sinks are all values of the returned structures, through data and control dependences. "
               "With conf_int 'linear' or 'none' no source may reach a sink and no random generator may be drawn from. For every option combination no process-wide setting "
               "(numpy error state outside a with block, global seed, warning filters) may be touched.")
ASSUMPTIONS = ["numpy, scipy linear algebra and FFT routines are deterministic functions of their arguments"]
SOURCES = ("rng", "clock", "uninit", "env", "hash", "id")


def configs(tier, seed):
    cs = [dict(constit="list", order_constit="list", infer="many", twodim=w, method=m) for w in (False, True) for m in ("ols", "robust")]
    return grid(tier, seed) + cf.named(cs)


def set_order(I, c, r, rep):
    """Iterating over every set in the opposite order changes nothing, neither
    the results nor the model matrix (whose column order decides rounding)."""
    sites = sorted({site(e) for e in r.events if e["kind"] == "set-iteration"})
    if not sites:
        rep.ok("no-hash-order", "solve")
        return
    I.set_reversed = True
    try:
        q = cf.run_solve(I, c)
    finally:
        I.set_reversed = False
    if q.value is None:
        rep.bad("no-hash-order", sites[0], f"raises {q.exc} for one order of a set only")
        return
    a = [e for e in r.events if e["kind"] == "lstsq"]
    b = [e for e in q.events if e["kind"] == "lstsq"]
    res = True
    if len(a) != len(b):
        res = False
    for x, y in zip(a, b):
        if x["B"] is None or y["B"] is None:
            res = None
            continue
        v = compare(x["B"].term, x["Baxes"], y["B"].term, y["Baxes"])
        if v is False:
            res = False
            break
        if v is None:
            res = None
    rep.check(res, "no-hash-order", "; ".join(sites), "the columns of the model matrix depend on the iteration order of a set")
    fq = {p: v for p, v in walk(q)}
    for p, v in walk(r):
        w = fq.get(p)
        if w is None:
            rep.bad("no-hash-order", field_site(r, p), f"{name_of(p)} is reported for one order of a set only")
        elif isinstance(v, (Num, Arr)) and isinstance(w, (Num, Arr)):
            rep.check(compare(term(r, v), getattr(v, "axes", ()), term(q, w), getattr(w, "axes", ())), "no-hash-order", field_site(r, p), f"{name_of(p)} depends on the iteration order of a set", key=name_of(p))


def compare(s, sx, t, tx):
    if len(sx) != len(tx):
        return None
    if tuple(sx) == tuple(tx):
        if not sx:
            return tm.teq(s, t)[0]
        C = sx[-1]
        res = True
        ka, kb = [[None if y is None else y.alts for _, y in tm.seg_alts(z, C)] for z in (s, t)]
        if None not in ka and None not in kb and ka != kb and all(ka.count(y) == kb.count(y) for y in ka):
            return False  # the same entries in another order
        for (_, a), (_, b) in zip(tm.seg_alts(s, C), tm.seg_alts(t, C)):
            v = tm.teq(a, b)[0] if a is not None and b is not None else None
            if v is False:
                return False
            res = res and v
        return res
    return None


def run(I, c, rep):
    r = cf.run_solve(I, c)
    runs = [("solve", r)]
    if r.value is not None:
        if c.get("conf_int") != "MC" and c.get("infer") == "many":
            set_order(I, c, r, rep)
        runs.append(("reconstruct", cf.run_reconstruct(I, c, r)))
        runs.append(("reconstruct subset", cf.run_reconstruct(I, c, r, r.st.copy(), min_SNR=0, min_PE=0)))
    else:
        rep.unsure("analysis", "solve", f"raises {r.exc}")
        if c.get("conf_int") != "MC":
            set_order(I, c, r, rep)
    for what, q in runs:
        n = 0
        for e in q.events:
            if e["kind"] == "global-setting":
                n += 1
                rep.bad("no-process-setting", site(e), f"{what}: {e.get('what', '')}")
        if not n:
            rep.ok("no-process-setting", what)
        if c.get("conf_int") == "MC":
            continue
        n = 0
        for e in q.events:
            if e["kind"] in ("rng", "clock", "env") or e["kind"] == "mvn":
                n += 1
                rep.bad("no-nondeterministic-source", site(e), f"{what}: {e['kind']} {e.get('what', '')}")
        if not n:
            rep.ok("no-nondeterministic-source", what)
        if q.value is None:
            continue
        for p, v in walk(q):
            d = {str(x) for x in I.deps(q.st, v)}
            hit = [s for s in SOURCES if s in d]
            if hit:
                rep.bad("no-tainted-result", name_of(p), f"{what}: {name_of(p)} depends on {', '.join(hit)}", key=name_of(p) + ":" + ",".join(hit))
            else:
                rep.ok("no-tainted-result", f"{what} {name_of(p)}")
