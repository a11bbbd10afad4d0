#!/usr/bin/env python3
"""Write MANIFEST.json from the rule modules and the list of declined properties."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

NA = {
    "C30": "Optimality compares the residual with that of every other coefficient vector; it is delegated to numpy.linalg.lstsq, whose numerical result no static argument over UTide's source can bound.",
    "C31": "Coverage is a frequency over noise realisations, a runtime statistical quantity that no static argument over the source can bound.",
    "C32": "Breakdown and convergence of the iteratively reweighted fit are analytic properties of an iteration over arbitrary data; no terminating static argument in reach bounds them.",
    "C33": "Agreement of FFT and Lomb-Scargle estimates holds only in the statistical limit and depends on scipy's numerical normalisation; source analysis cannot decide it.",
    "C34": "The accuracy of tabulated constants against the real ephemerides is a fact about data and nature, not about the code's structure.",
    "C35": "Bounds on floating-point rounding under permutation or shifts depend on conditioning at run time; they are out of reach of value analysis over the reals.",
}

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    try:
        m = importlib.import_module("sa.rules." + pid.lower())
    except ModuleNotFoundError:
        na.append({"property": pid, "reason": NA.get(pid, "No check has been built for it yet.")})
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"python3 check.py {pid} thorough",
        "technique": getattr(m, "TECHNIQUE", "abstract interpretation of the package source (dataflow, effect and value analysis)"),
        "level": "other",
        "level_note": m.EXPLANATION + " Trusted: the model of numpy/scipy semantics in sa/np*.py" + ("; " + "; ".join(m.ASSUMPTIONS) if m.ASSUMPTIONS else "") + ". Constructs outside the model are reported as undecided, never as violations.",
    })
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py || true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
