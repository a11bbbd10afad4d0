"""C01: nothing the caller passes in is modified."""
from .common import *

EXPLANATION = ("Interprocedural ownership and effect analysis by abstract interpretation: every object handed in by the caller carries an owner label that "
               "views, aliases, slices and container entries inherit; every in-place operation (item, slice and attribute stores, augmented assignment, out=, "
               "mutating methods) on storage with a caller's label is a violation. Analysed: solve() and reconstruct() for a covering array of option "
               "combinations, with masked, NaN and infinite samples, on every branch including those that raise.")
ASSUMPTIONS = ["numpy and scipy functions modify only arguments documented as outputs"]


def configs(tier, seed):
    cs = grid(tier, seed)
    for tw in (False, True):
        for k in ("list", "int", "nomask"):
            cs.append({"name": f"input {k} twodim={tw}", "special": k, "twodim": tw, "conf_int": "linear", "white": True, "cost": 3})
        cs.append({"name": f"refused requests twodim={tw}", "special": "bad", "twodim": tw})
    for k in ("robust_kw", "constit"):
        cs.append({"name": f"option {k}", "special": k, "twodim": False, "conf_int": "none"})
    return cs


def judge(rep, run, what):
    n = 0
    for e in run.events:
        if e["kind"] == "mutate":
            for r in e["root"]:
                if str(r).startswith("arg:"):
                    n += 1
                    rep.bad("no-write-to-caller", site(e), f"{what}: {e['what']} writes storage of the caller's {str(r)[4:]}", key=str(r))
    if not n:
        rep.ok("no-write-to-caller", what)


def run(I, c, rep):
    sp = c.get("special")
    if sp == "bad":
        for bad in ({"conf_int": "bogus"}, {"method": "bogus"}, {"order_constit": "bogus"}, {"phase": "bogus"}, {"nodal": "bogus"}, {"nosuch": 1}):
            r = cf.run_solve(I, dict(c, **{k: v for k, v in bad.items() if k != "nosuch"}))
            judge(rep, r, "solve refused")
        st = world.fresh_state(I)
        for miss in ("amp_ratios", "inferred_names", "phase_offsets", "reference_names"):
            st = world.fresh_state(I)
            inf = world.infer_arg(I, st, cf.INFER["one"], c["twodim"])
            cell = st.heap[inf.oid]
            del cell.d[miss]
            r = world.run_solve(I, c["twodim"], infer=inf, st=st, verbose=False)
            judge(rep, r, f"infer without {miss}")
        return
    if sp in ("list", "int", "nomask"):
        st = world.fresh_state(I)
        if sp == "int":
            r = world.run_solve(I, c["twodim"], kinds=(), st=st, tdt="i", verbose=False, conf_int="linear", white=True)
        elif sp == "nomask":
            r = world.run_solve(I, c["twodim"], kinds=("nan", "inf"), st=st, verbose=False, conf_int="linear", white=True)
        else:
            args = [world.list_series(I, st, n) for n in (["t", "u", "v"] if c["twodim"] else ["t", "u"])]
            r = world.call(I, "utide._solve", "solve", args, {"lat": world.scalar("lat", re=world.LATR), "verbose": Known(False) if False else num(False), "conf_int": Known("linear"), "white": num(True), "epoch": Known("python")}, st)
        judge(rep, r, "solve")
        if r.value is not None:
            q = cf.run_reconstruct(I, c, r)
            judge(rep, q, "reconstruct")
        return
    st = world.fresh_state(I)
    over = {}
    if sp == "robust_kw":
        over = {"method": "robust", "robust_kw": world.pydict(I, st, {"weight_function": Known("cauchy"), "maxit": num(7)}, "arg:robust_kw")}
    elif sp == "constit":
        over = {"constit": "list"}
    r = cf.run_solve(I, c, st, **over)
    judge(rep, r, "solve")
    if r.exc is not None or r.value is None:
        rep.unsure("analysis", "solve", f"raises {r.exc}")
        return
    names = world.strlist(I, r.st, ["N1", "N9"], "arg:names")
    for opts in ({}, {"min_SNR": 0.0, "min_PE": 0.0}, {"constit": names}, {"epoch": "matlab"} if c.get("t") == "python" else {"min_SNR": 3.0}):
        q = cf.run_reconstruct(I, c, r, r.st.copy(), **opts)
        judge(rep, q, "reconstruct")
