"""C11: results scale with the data."""
from .common import *

EXPLANATION = ("Dimension (homogeneity-degree) inference: u and v carry degree 1, every operation combines degrees, comparisons are typed through the difference they test; "
               "adding, comparing or thresholding quantities of different degree, or applying a non-homogeneous function to one with a degree, is an error that carries its site. "
               "Every reported quantity must have its declared degree (amplitudes, means, slopes, their intervals, predictions: 1; phases, ratios, weights, order, names: 0).")
ASSUMPTIONS = ["numpy.linalg and scipy.signal routines are homogeneous in their data argument", "positive scale factors; no overflow or underflow"]

ONE_ = {"A", "A_ci", "Lsmaj", "Lsmaj_ci", "Lsmin", "Lsmin_ci", "mean", "umean", "vmean", "slope", "uslope", "vslope"}
ZERO_ = {"g", "g_ci", "theta", "theta_ci", "PE", "SNR", "weights", "name", "aux.frq", "aux.lind", "aux.reftime", "nR", "nNR", "nI", "diagn.name", "diagn.PE", "diagn.SNR", "rf.w"}


def configs(tier, seed):
    return grid(tier, seed)


def judge(rep, r, what, p, v, want):
    n = name_of(p)
    i = r.I.info(r.st, v) if isinstance(v, (Num, Arr)) else None
    if i is None:
        rep.unsure("degree", f"{what} {n}", "not an array")
        return
    d = i.deg
    if d is None:
        rep.unsure("degree", f"{what} {n}", "degree unknown")
    elif isinstance(d, Bad):
        rep.bad("homogeneous", f"{d.why} -> {what} {n}", f"{n} mixes quantities that scale differently with the data: {d.why}", key=n)
    elif d == want or repr(d) == "ANY":
        rep.ok("degree", f"{what} {n}")
    elif isinstance(d, (int, float, Fraction)):
        rep.bad("degree", field_site(r, p), f"{n} scales with power {d} of the data, not {want}", key=n)
    else:
        rep.unsure("degree", f"{what} {n}", repr(d))


def run(I, c, rep):
    r = cf.run_solve(I, c)
    if r.value is None:
        rep.unsure("analysis", "solve", f"raises {r.exc}")
        return
    for p, v in walk(r):
        n = name_of(p)
        if n in ONE_:
            judge(rep, r, "solve", p, v, 1)
        elif n in ZERO_:
            judge(rep, r, "solve", p, v, 0)
    for o in ({}, {"min_SNR": 3.0, "min_PE": 1.0}, {"min_SNR": 0.0, "min_PE": 0.0}):
        if c.get("conf_int") == "none" and not o:
            continue
        q = cf.run_reconstruct(I, c, r, r.st.copy(), **o)
        if q.value is None:
            rep.unsure("analysis", "reconstruct", f"raises {q.exc}")
            continue
        for p, v in walk(q):
            if name_of(p) in ("h", "u", "v"):
                judge(rep, q, "reconstruct", p, v, 1)
