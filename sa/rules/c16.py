"""C16: every latitude is usable."""
from .common import *

EXPLANATION = ("Interval analysis: for an arbitrary latitude in [-90, 90] every division, power, logarithm and square root reachable from solve() and reconstruct() whose "
               "operand depends on the latitude has an operand interval (refined by branch conditions) that excludes the singular point; and the nodal factors are invariant under "
               "the documented clamp: on |lat| < 5 the factors equal those of the clamped latitude of the same sign.")
ASSUMPTIONS = ["latitude is given as a finite number"]


def configs(tier, seed):
    out = []
    for nodal in (True, "linear_time"):
        for phase in ("Greenwich", "linear_time", "raw"):
            out.append({"twodim": False, "conf_int": "none", "nodal": nodal, "phase": phase})
    out.append({"twodim": True, "conf_int": "linear", "white": True, "nodal": True, "infer": "one"})
    out.append({"twodim": True, "conf_int": "none", "nodal": False})
    return cf.named(out)


def run(I, c, rep):
    r = cf.run_solve(I, c)
    runs = [("solve", r)]
    if r.value is not None:
        runs.append(("reconstruct", cf.run_reconstruct(I, c, r)))
    for what, q in runs:
        n = 0
        for e in q.events:
            if e["kind"] == "div0" and "lat" in {str(x) for x in e.get("deps", ())} and only_lat(e):
                n += 1
                rep.bad("no-singular-latitude", site(e), f"{what}: divisor {str(e.get('term', ''))[:200]} can be zero for some latitude (range {e.get('re')})")
            elif e["kind"] == "divok":
                if "lat" in {str(x) for x in e.get("deps", ())} and only_lat(e):
                    rep.ok("no-singular-latitude", site(e))
        if not n:
            rep.ok("no-singular-latitude", what)


def only_lat(e):
    """Dependences of the divisor do not include the data."""
    return not ({"u", "v", "part:re", "part:im"} & {str(x) for x in e.get("deps", ())})
