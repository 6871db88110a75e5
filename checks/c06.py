"""C06: the exact solvers search every admissible bin structure and return
one of greatest divergence."""

from .binmodel import *
from .c05 import CONFIGS

ASSUMPTIONS = [
    "OR-Tools returns an optimal assignment of the posted model when it "
    "reports OPTIMAL (contract stub)",
    "prebin counts of events and non-events are integers in [1, 1000]",
    "a structure that meets a real-valued constraint with a margin below "
    "4e-6 may be missed (the CP model scales rates to integers)",
]


def harnesses(tier):
    H = []

    def comp(name, n, tier="quick", weight=1, hi=1000, **p):
        H.append(Harness(
            "complete " + name,
            lambda c, p=p, n=n: body_complete(c, n, hi,
                                              divergence="triangular", **p),
            "%d prebins, counts in [1,%d]" % (n, hi), expect=("bins=1",),
            tier=tier, weight=weight,
            timeout=240 if tier == "quick" else 1500))

    def opt(name, n, tier="quick", weight=1, hi=1000, **p):
        H.append(Harness(
            "objective " + name,
            lambda c, p=p, n=n: body_optimal(c, n, hi, **p),
            "%d prebins, counts in [1,%d]" % (n, hi), expect=("compared",),
            tier=tier, weight=weight,
            timeout=240 if tier == "quick" else 1500))
    for s in ("cp", "mip"):
        for t in TRENDS:
            if t is None or "heuristic" not in t:
                comp("%s trend=%s" % (s, t), 3, solver=s, monotonic_trend=t,
                     scope=no_inversion_split)
        for name, n, p in CONFIGS:
            if "gamma" in name or "fixed" in name:
                continue
            comp("%s %s" % (s, name), n, solver=s, monotonic_trend=None,
                 tier="thorough" if "pvalue" in name else "quick", **p)
            comp("%s %s ascending" % (s, name), n, solver=s,
                 monotonic_trend="ascending",
                 tier="thorough" if "pvalue" in name else "quick", **p)
        for k in ("iv", "js", "hellinger", "triangular"):
            opt("%s %s" % (s, k), 3, solver=s, kind=k, monotonic_trend=None)
        opt("%s gamma" % s, 2, solver=s, kind="triangular", gamma=0.1, hi=50,
            monotonic_trend=None)
    return H
