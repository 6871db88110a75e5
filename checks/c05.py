"""C05: the binning returned for a binary target satisfies every constraint
the user requested (both exact solvers)."""

from .binmodel import *

ASSUMPTIONS = [
    "OR-Tools returns an assignment that satisfies the posted constraints "
    "(contract stub); guarantees are about solved problems",
    "prebin counts of events and non-events are integers in [1, 1000] "
    "(the pre-binning refinement guarantees at least one of each)",
]

CONFIGS = [
    # name, n, params
    ("n bins", 3, dict(sym=dict(min_n_bins=(1, 3), max_n_bins=(1, 3)))),
    ("bin size", 3, dict(sym=dict(min_bin_size=(0.001, 0.5),
                                  max_bin_size=(0.002, 0.9)))),
    ("min event", 3, dict(sym=dict(min_bin_n_event=(1, 900)))),
    ("max event", 3, dict(sym=dict(max_bin_n_event=(1, 2500)))),
    ("min nonevent", 3, dict(sym=dict(min_bin_n_nonevent=(1, 900)))),
    ("max nonevent", 3, dict(sym=dict(max_bin_n_nonevent=(1, 2500)))),
    ("all limits", 3, dict(sym=dict(
        min_bin_n_event=(1, 900), max_bin_n_event=(1, 2500),
        min_bin_n_nonevent=(1, 900), max_bin_n_nonevent=(1, 2500)))),
    ("pvalue consecutive", 3, dict(max_pvalue=0.05)),
    ("pvalue all", 3, dict(max_pvalue=0.05, max_pvalue_policy="all")),
    ("fixed first", 3, dict(user_splits_fixed=[True, False])),
    ("fixed second", 3, dict(user_splits_fixed=[False, True])),
    ("gamma", 3, dict(gamma=0.1)),
    ("gamma sizes", 3, dict(gamma=0.1, sym=dict(
        min_bin_size=(0.001, 0.5), max_bin_size=(0.002, 0.9)))),
]


def harnesses(tier):
    H = []

    def mk(name, n, hi=1000, tier="quick", weight=1, **p):
        H.append(Harness(
            name, lambda c, p=p, n=n: body_feasible(
                c, n, hi, divergence="triangular", **p),
            "%d prebins, counts %s symbolic%s" % (
                n, "in/of prebins %s" % hi if isinstance(hi, list)
                else "in [1,%d]" % hi, ", limits symbolic in %s" % (p["sym"],)
                if "sym" in p else ""),
            expect=("bins=1",) if "fixed" not in name else (),
            tier=tier, weight=weight, timeout=240 if tier == "quick" else 1500))
    for solver in ("cp", "mip"):
        for t in TRENDS:
            mk("%s trend=%s n=3" % (solver, t), 3, solver=solver,
               monotonic_trend=t)
            mk("%s trend=%s n=4" % (solver, t), 4, solver=solver,
               monotonic_trend=t, tier="thorough")
        for t in ("ascending", "descending", "peak", "valley", "concave",
                  "convex"):
            mk("%s diff trend=%s n=3" % (solver, t), 3, solver=solver,
               monotonic_trend=t, sym=dict(min_event_rate_diff=(0.001, 0.5)),
               tier="quick" if (solver, t) in (
                   ("cp", "ascending"), ("mip", "descending"),
                   ("mip", "peak"), ("cp", "valley")) else "thorough")
        for pol in ("consecutive", "all"):
            for k, h in enumerate(([300, (20, 60), (50, 50)],
                                   [(20, 60), 300, (50, 50)],
                                   [(50, 50), (20, 60), 300])):
                mk("%s pvalue %s prebin %d" % (solver, pol, k), 3, h,
                   solver=solver, monotonic_trend=None,
                   max_pvalue=0.05, max_pvalue_policy=pol,
                   tier="quick" if k == (pol == "consecutive") else
                   "thorough")
        for name, n, p in CONFIGS:
            mk("%s %s n=%d" % (solver, name, n), n, solver=solver,
               monotonic_trend=None,
               tier="thorough" if "pvalue" in name else "quick",
               weight=9 if "pvalue" in name else 1, **p)
            mk("%s %s ascending n=%d" % (solver, name, n), n, solver=solver,
               monotonic_trend="ascending", tier="thorough", **p)
    return H
