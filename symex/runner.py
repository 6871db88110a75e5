"""Runs the harnesses of one property, writes evidence, reports violations."""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    """one exploration: ``body(ctx)`` for every value of its inputs.

    bounds : text, the declared bounds of this harness
    expect : cover labels that must be reached (vacuity guard)
    """

    def __init__(self, name, body, bounds, expect=(), tier="quick",
                 timeout=240, max_paths=20000, validate=6, tol=1e-7,
                 max_enum=64, prove_timeout=None, nice=True, weight=1):
        self.name = name
        self.body = body
        self.bounds = bounds
        self.expect = tuple(expect)
        self.tier = tier
        self.timeout = timeout
        self.max_paths = max_paths
        self.validate = validate
        self.tol = tol
        self.max_enum = max_enum
        self.prove_timeout = prove_timeout
        self.nice = nice
        self.weight = weight


def load_property(pid):
    return importlib.import_module("checks.{}".format(pid.lower()))


def harness_list(mod, tier):
    from .core import Unsupported
    try:
        hs = [h for h in mod.harnesses(tier)]
    except Exception:               # concrete set-up failed: no verdict
        why = traceback.format_exc()[-1500:]

        def body(c):
            raise Unsupported("set-up of the harnesses: " + why)
        hs = [Harness("setup", body, "none")]
    return [h for h in hs if tier == "thorough" or h.tier == "quick"]


def _work(args):
    pid, tier, idx, deadline = args
    import resource
    lim = int(os.environ.get("VERIF_MEM_GB", "10")) << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    from . import patch
    from .explore import Explorer, ViolationFound, jsonable
    from .core import Inconclusive, Unsupported
    mod = load_property(pid)
    h = harness_list(mod, tier)[idx]
    t0 = time.time()
    out = dict(name=h.name, bounds=h.bounds, violation=None, degraded=[],
               validated=0, functions=[])
    budget = max(5.0, min(h.timeout, deadline - time.time()))
    ex = Explorer(h.name, h.body, max_paths=h.max_paths,
                  timeout=budget, tol=h.tol, max_enum=h.max_enum,
                  prove_timeout=h.prove_timeout, nice=h.nice,
                  n_samples=h.validate)
    try:
        ex.run()
    except ViolationFound as v:
        out["violation"] = dict(label=v.label, inputs=jsonable(v.inputs),
                                failures=[[str(a), str(b)[-1500:]]
                                          for a, b in v.failures[:5]],
                                info=str(v.info or "")[-1500:])
    except BaseException as e:          # engine problem: no verdict
        if isinstance(e, KeyboardInterrupt):
            raise
        ex.degrade("{}: {}".format(type(e).__name__,
                                   traceback.format_exc()[-1500:]))
    # encoding validation: models of explored paths, run on the real code
    if out["violation"] is None:
        try:
            v = ex.validate()
            if v is not None:
                out["violation"] = v
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            ex.degrade("validation {}: {}".format(
                type(e).__name__, traceback.format_exc()[-1500:]))
    out["validated"] = ex.validated
    out["functions"] = sorted(ex.functions)
    out["stats"] = ex.stats.as_dict()
    out["covers"] = dict(ex.stats.covers)
    out["labels"] = dict(ex.stats.labels)
    out["exceptions"] = dict(ex.stats.exceptions)
    out["degraded"] = ex.stats.degraded
    out["samples"] = ex.samples_js()[:3]
    out["missing_cover"] = [l for l in h.expect
                            if not ex.stats.covers.get(l)]
    out["wall_s"] = round(time.time() - t0, 3)
    return out


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_property(pid, tier, jobs=None, only=None, quiet=False):
    from . import patch
    t0 = time.time()
    mod = load_property(pid)
    hs = harness_list(mod, tier)
    limit = float(os.environ.get(
        "VERIF_BUDGET", "600" if tier == "quick" else "5400"))
    deadline = t0 + limit
    idx = [i for i, h in enumerate(hs)
           if only is None or any(o in h.name for o in only)]
    idx.sort(key=lambda i: -hs[i].weight)
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "8"))
    results = {}
    if jobs == 1 or len(idx) == 1:
        for i in idx:
            results[i] = _work((pid, tier, i, deadline))
    else:
        cx = mp.get_context("fork")
        with cx.Pool(min(jobs, len(idx)), maxtasksperchild=1) as pool:
            pend = {i: pool.apply_async(_work, ((pid, tier, i, deadline),))
                    for i in idx}
            while pend:
                ready = [i for i in pend if pend[i].ready()]
                for i in ready:
                    try:
                        results[i] = pend.pop(i).get()
                    except Exception as e:
                        results[i] = _lost(hs[i], repr(e)[:500])
                if any(r["violation"] for r in results.values()) and \
                        not os.environ.get("VERIF_ALL"):
                    # one violation decides the outcome
                    idx = [i for i in idx if i in results]
                    break
                if time.time() > deadline + 60:
                    for i in pend:
                        results[i] = _lost(hs[i], "worker gave no answer")
                    break
                if not ready:
                    time.sleep(0.02)
            pool.terminate()
    res = [results[i] for i in idx]
    rc = 0
    viols = []
    for r in res:
        if r["violation"]:
            viols.append(r)
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    for r in viols:
        rp = os.path.join(evd, "replay", "{}-{}.json".format(
            pid, "".join(ch if ch.isalnum() else "_"
                         for ch in r["name"])[:60]))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, harness=r["name"], tier=tier,
                           **r["violation"]), f, indent=1, default=str)
        print("VIOLATION property={} replay={}".format(pid, rp))
        print("  harness {}: {}".format(r["name"], r["violation"]["label"]))
        for a, b in r["violation"]["failures"][:3]:
            print("    {} {}".format(a, str(b)[-600:]))
        print("    inputs {}".format(json.dumps(
            r["violation"]["inputs"], default=str)[:800]))
        rc = 1
    # known findings: probed on the real code
    kf = []
    for k in known_findings():
        if k["property"] != pid or k.get("status") != "known":
            continue
        probe = getattr(mod, "PROBES", {}).get(k["id"])
        if probe is None:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                still = probe()
        except Exception as e:
            still = None
        if still:
            print("KNOWN-FINDING: property={} {}".format(pid, k["what"]))
            kf.append(k["id"])
    deg = []
    for r in res:
        for d in r["degraded"][:3]:
            deg.append("{}: {}".format(r["name"], d))
        for m in r["missing_cover"]:
            if not r["violation"]:
                deg.append("{}: cover '{}' not reached".format(
                    r["name"], m))
    for d in deg:
        print("DEGRADED property={} {}".format(pid, d[:2000]))
    tot = {}
    for r in res:
        for k, v in r.get("stats", {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    fns = sorted({f for r in res for f in r["functions"]})
    wall = time.time() - t0
    ev = dict(
        property=pid, tier=tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level="model_checking",
        coverage=dict(
            states=tot.get("decisions", 0),
            transitions=tot.get("paths", 0) + tot.get("paths_infeasible", 0),
            traces_validated_against_impl=sum(r["validated"] for r in res),
            samples=[dict(harness=r["name"], inputs=s)
                     for r in res for s in r["samples"][:2]][:40],
            explanation="states = branching decisions on symbolic values, "
            "transitions = explored execution paths of the real functions; "
            "every obligation on every path is decided by z3",
            engine=tot,
            functions_encoded=fns,
            solver_queries=tot.get("solver_queries", 0) +
            tot.get("feasibility_queries", 0),
            solver_seconds=tot.get("solver_s", 0),
            harnesses=[dict(name=r["name"], bounds=r["bounds"],
                            covers=r.get("covers", {}),
                            obligations_by_label=r.get("labels", {}),
                            engine=r.get("stats", {}),
                            validated=r["validated"],
                            degraded=r["degraded"][:3],
                            wall_s=r.get("wall_s")) for r in res],
            degraded=deg[:20],
            known_findings_reproduced=kf,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        wall_s=round(wall, 3),
        violations=len(viols),
    )
    if viols:
        ev["violation_labels"] = [
            dict(harness=r["name"], label=r["violation"]["label"])
            for r in viols]
    if only is None:
        with open(os.path.join(evd, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if not quiet:
        print("{} {}: {} harnesses, {} paths, {} obligations, {} solver "
              "queries, {} validated runs, {} functions, solver {:.1f}s, "
              "wall {:.1f}s{}".format(
                  pid, tier, len(res), tot.get("paths", 0),
                  tot.get("obligations", 0),
                  tot.get("solver_queries", 0) +
                  tot.get("feasibility_queries", 0),
                  sum(r["validated"] for r in res), len(fns),
                  tot.get("solver_s", 0), wall,
                  "" if not deg else " DEGRADED={}".format(len(deg))))
        if os.environ.get("VERIF_VERBOSE"):
            for r in res:
                print("   {:40s} {:7.1f}s paths={} obl={} cov={}".format(
                    r["name"], r.get("wall_s") or 0,
                    r.get("stats", {}).get("paths"),
                    r.get("stats", {}).get("obligations"),
                    r.get("covers")))
    return rc


COMMON = [
    "floating point values are modelled as exact reals; a counterexample is "
    "reported only if the real code reproduces it in floating point",
    "numpy, pandas, scipy and OR-Tools follow the documented semantics "
    "encoded by the stand-ins in /verif/symex (validated on models of the "
    "explored paths against the real libraries)",
    "anything outside the bounds listed per harness is not covered",
]


def _lost(h, why):
    return dict(name=h.name, bounds=h.bounds, violation=None,
                degraded=[why], validated=0, functions=[], stats={},
                covers={}, labels={}, samples=[], missing_cover=[],
                wall_s=0)


def replay_file(path):
    from .explore import Explorer, unjson
    with open(path) as f:
        d = json.load(f)
    mod = load_property(d["property"])
    h = [x for x in mod.harnesses("thorough") if x.name == d["harness"]][0]
    ex = Explorer(h.name, h.body, tol=h.tol)
    ok, failures, err = ex.replay(unjson(d["inputs"]))
    print("reproduced" if ok else "not reproduced ({})".format(err))
    for a, b in failures:
        print("  ", a, str(b)[-1500:])
    return 1 if ok else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    from . import patch
    patch.load_all()
    if a.replay:
        return replay_file(a.replay)
    return run_property(a.property, a.tier, a.jobs, a.only)
