"""Running the rules of one property over its configurations."""

import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

from . import terms as tm
from . import world
from .vals import *
from .vals import NONE

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


class Report:
    """Obligations of one configuration: decided, violated or undecided."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.obs = []
        self.seen = set()

    def add(self, verdict, rule, site="", detail="", key=None):
        k = (verdict, rule, str(site), key or "")
        if k in self.seen:
            return
        self.seen.add(k)
        self.obs.append({"verdict": verdict, "rule": rule, "site": str(site), "detail": str(detail)[:600], "key": key or rule, "config": self.cfg})

    def ok(self, rule, site="", detail=""):
        self.add("ok", rule, site, detail)

    def bad(self, rule, site="", detail="", key=None):
        self.add("violation", rule, site, detail, key)

    def unsure(self, rule, site="", detail=""):
        self.add("undecided", rule, site, detail)

    def check(self, v, rule, site="", detail="", key=None):
        """v: True / False / None."""
        if v is True:
            self.ok(rule, site)
        elif v is False:
            self.bad(rule, site, detail, key)
        else:
            self.unsure(rule, site, detail)
        return v


_I = None
_rules = None


def site(e):
    """file:line (function) of an event."""
    loc = e.get("loc") if isinstance(e, dict) else e
    if isinstance(loc, (tuple, list)) and len(loc) >= 3:
        return f"{loc[0]}:{loc[2]} ({loc[1]})"
    return str(loc)


def _one(job):
    k, cfg, limit = job
    rep = Report(cfg.get("name", ""))
    t0 = time.time()

    def stop(*_):
        raise Timeout()

    signal.signal(signal.SIGALRM, stop)
    signal.alarm(limit)
    st = {}
    try:
        _I.events.clear()
        _I.stats["unknown"] = set()
        _rules.run(_I, cfg, rep)
    except Timeout:
        rep.unsure("analysis", "", f"time limit of {limit} s")
    except (MemoryError, RecursionError) as e:
        rep.unsure("analysis", "", repr(e)[:200])
    except Exception as e:  # the analysis itself failed: nothing is claimed
        tb = traceback.extract_tb(e.__traceback__)
        rep.unsure("analysis", "", repr(e)[:200] + " at " + " < ".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in reversed(tb[-4:])))
    finally:
        signal.alarm(0)
    st["calls"] = _I.stats.get("calls", 0)
    st["funcs"] = sorted(map(str, _I.stats.get("funcs", ())))
    st["sites"] = len(_I.stats.get("sites", ()))
    st["unknown"] = sorted({str(x) for x in _I.stats.get("unknown", ())})[:20]
    return k, rep.obs, st, time.time() - t0


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == prop:
                out.append(e)
    return out


def main(prop, rules, tier, seed):
    global _I, _rules
    t0 = time.time()
    out_dir = os.path.join(VERIF, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    _rules = rules
    loaderr = None
    try:
        _I = world.load()
    except Exception as e:
        loaderr = repr(e)[:300]
        traceback.print_exc()
    obs, funcs, unknown, calls, sites, walls = [], set(), set(), 0, 0, []
    cfgs = []
    if _I is not None:
        cfgs = rules.configs(tier, seed)
        for k, c in enumerate(cfgs):
            c.setdefault("name", f"config {k}")
        # longest first
        order = sorted(range(len(cfgs)), key=lambda k: -cfgs[k].get("cost", 1))
        limit = 240 if tier == "quick" else 700
        jobs = [(k, cfgs[k], limit) for k in order]
        n = min(8, len(jobs), os.cpu_count() or 1)
        budget = (780 if tier == "quick" else 3000)
        ctx = mp.get_context("fork")
        results = {}
        with ctx.Pool(n, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_one, jobs)
            for _ in jobs:
                left = budget - (time.time() - t0)
                try:
                    k, o, s, w = it.next(timeout=max(left, 1))
                except mp.TimeoutError:
                    break
                results[k] = (o, s, w)
            pool.terminate()
        for k, c in enumerate(cfgs):
            if k not in results:
                obs.append({"verdict": "undecided", "rule": "analysis", "site": "", "detail": "time budget", "key": "analysis", "config": c["name"]})
                continue
            o, s, w = results[k]
            obs += o
            funcs |= set(s["funcs"])
            unknown |= set(s["unknown"])
            calls += s["calls"]
            sites = max(sites, s["sites"])
            walls.append((round(w, 2), c["name"]))
    known = known_findings(prop)
    viol, kf = [], []
    for o in obs:
        if o["verdict"] != "violation":
            continue
        m = next((e for e in known if e["rule"] == o["rule"] and e["key"] == o["key"]), None)
        (kf if m else viol).append((o, m))
    count = {v: sum(1 for o in obs if o["verdict"] == v) for v in ("ok", "violation", "undecided")}
    byrule = {}
    for o in obs:
        d = byrule.setdefault(o["rule"], {"ok": 0, "violation": 0, "undecided": 0})
        d[o["verdict"]] += 1
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": {
            "explanation": rules.EXPLANATION,
            "configurations": len(cfgs),
            "configuration_names": [c["name"] for c in cfgs][:400],
            "obligations": len(obs),
            "discharged": count["ok"],
            "undecided": count["undecided"],
            "undecided_samples": [o for o in obs if o["verdict"] == "undecided"][:12],
            "by_rule": byrule,
            "functions_analysed": sorted(funcs),
            "calls_interpreted": calls,
            "call_sites": sites,
            "not_modelled": sorted(unknown)[:20],
            "known_findings": [m["what"] for _, m in kf],
            "samples": [o for o in obs if o["verdict"] == "ok"][:6],
            "slowest": sorted(walls, reverse=True)[:5],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(rules, "ASSUMPTIONS", []) + ([f"package could not be loaded: {loaderr}"] if loaderr else []),
        "violations": [dict(o) for o, _ in viol][:40],
    }
    with open(os.path.join(out_dir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {len(cfgs)} configurations, {len(obs)} obligations, {count['ok']} discharged, {count['undecided']} undecided, {count['violation']} violated, {ev['wall_s']} s")
    seen = set()
    for o, m in kf:
        if m["key"] not in seen:
            seen.add(m["key"])
            print(f"KNOWN-FINDING: property={prop} {m['what']}")
    if viol:
        rp = os.path.join("evidence", f"{prop}.violations.txt")
        with open(os.path.join(VERIF, rp), "w") as f:
            for o, _ in viol:
                f.write(f"{prop} [{o['rule']}] {o['site']}\n  config: {o['config']}\n  {o['detail']}\n")
        seen = set()
        for o, _ in viol:
            k = (o["rule"], o["site"])
            if k not in seen and len(seen) < 8:
                seen.add(k)
                print(f"  [{o['rule']}] {o['site']} ({o['config']}): {o['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if loaderr or not obs:
        # nothing could be analysed: the source is not in a state the analysis reads
        print(f"{prop}: analysis could not start: {loaderr}")
        return 2
    return 0
