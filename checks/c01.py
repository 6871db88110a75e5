"""C01: routing of numerical values to bins."""

from .tr import *

ASSUMPTIONS = [
    "the fitted splits are concrete (every interval, special code and the "
    "missing value occur in the training data); the transformed values are "
    "symbolic reals"]


def harnesses(tier):
    H = []

    def mk(name, tier="quick", n=2, **p):
        H.append(Harness(
            name, lambda c, p=p, n=n: body_route(c, n=n, **p),
            "%d symbolic records (regular value, special code or missing), "
            "%d splits" % (n, len(p.get("splits", (0, 1)))),
            expect=("indices", "bins", "indices default"), tier=tier))
    for t in ("binary", "continuous", "multiclass"):
        for s in (None, "list", "dict"):
            mk("%s special=%s" % (t, s), target=t, special=s)
            mk("%s special=%s 4 splits" % (t, s), target=t, special=s, n=3,
               splits=(-3.25, 0.0, 0.5, 40.0), tier="thorough")
        mk("%s one split" % t, target=t, splits=(0.0,))
    for s in (None, "list"):
        mk("scenarios special=%s" % s, target="scenario", special=s)
    mk("scenarios one split", target="scenario", splits=(0.0,))
    return H
