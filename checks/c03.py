"""C03: transformed values are those of the binning table."""

from .tr import *

ASSUMPTIONS = ["splits are concrete; transformed values, record counts "
               "(binary) and target values (continuous) are symbolic"]


def harnesses(tier):
    H = []

    def mk(name, tier="quick", **p):
        H.append(Harness(
            name, lambda c, p=p: body_values(c, **p),
            "symbolic record value; counts in [0,%d] / targets in "
            "[-%d,%d]" % (100, 100, 100),
            expect=("empirical", "value", "mixed"), tier=tier))
    for t in ("binary", "continuous", "multiclass"):
        for s in (None, "list", "dict"):
            mk("%s special=%s symbolic True" % (t, s), target=t, special=s)
        mk("%s two splits" % t, target=t, splits=(-1.0, 2.5),
           tier="thorough" if t == "binary" else "quick")
        if t != "multiclass":
            mk("%s no splits" % t, target=t, splits=(), special="list")
    for s in ("list", "dict"):
        mk("continuous single records special=%s" % s, target="continuous",
           special=s, counts="single")
    for s in (None, "list"):
        mk("scenarios special=%s" % s, target="scenario", special=s,
           splits=(-1.0, 2.5))
    return H
