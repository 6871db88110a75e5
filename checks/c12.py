"""C12: scaling of scorecard points."""

import math

from .sc import *
from . import sc as S

ASSUMPTIONS = [
    "the binning process and the estimator are stand-ins with arbitrary bin "
    "values, coefficients and intercept",
    "min_max: the largest and the smallest model score differ"]


def body_pdo(c, nbins, reverse, ib=False, ms=0, mm=0, special=None,
             sym=("vals", "coef"), pdo=20, odds=50, sp=600):
    with patch.cut_metrics(c):
        vs = setup(c, nbins, special=special, symbolic=sym)
        sym_odds = odds is None
        if sym_odds:
            pdo, odds = c.real("pdo", 1, 200), c.real("odds", 0.125, 64)
            sp = c.real("sp", 1, 1000)
        sc = fit(c, vs, ms=ms, mm=mm, scaling_method="pdo_odds",
                 scaling_method_params={"pdo": pdo, "odds": odds,
                                        "scorecard_points": sp},
                 reverse_scorecard=reverse, intercept_based=ib)
        P, R = points(sc, vs), raw_points(vs, ms, mm)
        factor = div(pdo, math.log(2))
        off = sub(sp, mul(factor, core.s_log(odds)))
        sense = -1 if reverse else 1
        for row in itertools.product(*[range(len(p)) for p in P]):
            s = ssum(P[k][i] for k, i in enumerate(row))
            logodds = add(ssum(R[k][i] for k, i in enumerate(row)),
                          intercept())
            want = sub(off, mul(mul(sense, factor), logodds))
            c.prove(c.eq(add(s, sc.intercept_), want) if sym_odds else
                    c.near(add(s, sc.intercept_), want),
                    "score at the log-odds of the record")
        if ib:
            for p in P:
                c.prove(c.And([core.s_ge(e, -1e-9) for e in p]),
                        "points are not negative")
                c.prove(c.Or([c.near(e, 0) for e in p]),
                        "smallest points are zero")
        else:
            c.prove(c.eq(sc.intercept_, 0), "no intercept")


def body_minmax(c, nbins, reverse, ib=False, ms=0, mm=0, special=None,
                sym=("vals", "coef"), target="binary", limits=(300, 850)):
    with patch.cut_metrics(c):
        vs = setup(c, nbins, special=special, symbolic=sym, target=target)
        a, b = limits
        if a is None:
            a = c.real("a", -100, 1000)
            b = c.real("b_", -100, 1000)
            c.assume(core.s_le(a, b))
        c.meta["fork_minmax"] = True
        R = raw_points(vs, ms, mm)
        rows = list(itertools.product(*[range(len(p)) for p in R]))
        raw = {r: ssum(R[k][i] for k, i in enumerate(r)) for r in rows}
        lo = hi = 0
        for p in R:
            l = h = p[0]
            for e in p[1:]:
                l, h = core.s_min(l, e), core.s_max(h, e)
            lo, hi = add(lo, l), add(hi, h)
        c.assume(core.s_ge(sub(hi, lo), 0.01))
        sc = fit(c, vs, target=target, ms=ms, mm=mm,
                 scaling_method="min_max",
                 scaling_method_params={"min": a, "max": b},
                 reverse_scorecard=reverse, intercept_based=ib)
        P = points(sc, vs)
        sense = -1 if reverse else 1
        q = mul(sense, c.div(sub(a, b), sub(hi, lo)))
        for r in rows:
            s = add(ssum(P[k][i] for k, i in enumerate(r)), sc.intercept_)
            # affine: the smallest model score maps to one limit, the largest
            # to the other
            c.prove(c.eq(s, add(a if reverse else b,
                                mul(q, sub(raw[r], lo)))),
                    "affine in the model score")
        if ib:
            for p in P:
                c.prove(c.And([core.s_ge(e, -1e-9) for e in p]),
                        "points are not negative")
                c.prove(c.Or([c.near(e, 0) for e in p]),
                        "smallest points are zero")
        else:
            c.prove(c.eq(sc.intercept_, 0), "no intercept")
            # the offset is spread evenly: differences between bins are the
            # scaled differences, and equal points add the same base
            base = [sub(P[k][0], mul(q, R[k][0])) for k in range(len(P))]
            for k in range(1, len(P)):
                c.prove(c.eq(base[k], base[0]), "even spread")


def body_none(c, nbins, ib=False, ms=0, mm=0, special=None,
              target="binary", refit=False):
    with patch.cut_metrics(c):
        vs = setup(c, nbins, special=special, target=target)
        sc = None
        if refit:
            sc = fit(c, vs, target=target, ms=ms, mm=mm, intercept_based=True)
            sc.set_params(intercept_based=False)
        sc = fit(c, vs, target=target, ms=ms, mm=mm, intercept_based=ib,
                 sc=sc)
        P, R = points(sc, vs), raw_points(vs, ms, mm)
        for row in itertools.product(*[range(len(p)) for p in P]):
            c.prove(c.near(add(ssum(P[k][i] for k, i in enumerate(row)),
                               sc.intercept_),
                           ssum(R[k][i] for k, i in enumerate(row))),
                    "score without scaling is coefficient times value")
        if ib:
            for p in P:
                c.prove(c.Or([c.near(e, 0) for e in p]),
                        "smallest points are zero")
                c.prove(c.And([core.s_ge(e, -1e-9) for e in p]),
                        "points are not negative")
        else:
            c.prove(c.eq(sc.intercept_, 0), "no intercept")
            for p, r in zip(P, R):
                c.prove(c.And([c.near(u, v) for u, v in zip(p, r)]),
                        "points are coefficient times value")


def harnesses(tier):
    H = []

    def mk(name, f, bounds, tier="quick", weight=1, **p):
        H.append(Harness(name, lambda c: f(c, **p), bounds, tier=tier,
                         weight=weight))
    D = {"A": -9, "B": -8}
    for rev in (False, True):
        for ib in (False, True):
            t = "reverse=%s intercept=%s" % (rev, ib)
            b = "bin values, coefficients and model intercept in [-50,50]"
            mk("pdo " + t, body_pdo, "2 variables of 2 bins, " + b,
               nbins=[2, 2] if not ib else [2, 1], reverse=rev, ib=ib)
            mk("pdo parameters " + t, body_pdo,
               "1 variable of 2 bins, any pdo, odds and points",
               nbins=[1], reverse=rev, ib=ib, odds=None, sym=("vals",))
            mk("minmax values " + t, body_minmax,
               "2 variables, values in [-50,50], fixed coefficients",
               nbins=[2, 1], reverse=rev, ib=ib, sym=("vals",))
            mk("minmax coefficients " + t, body_minmax,
               "2 variables, coefficients in [-50,50], fixed values",
               nbins=[1, 1], reverse=rev, ib=ib, sym=("coef",))
            mk("minmax limits " + t, body_minmax,
               "1 variable of 2 bins, any limits", nbins=[1], reverse=rev,
               ib=ib, sym=("vals",), limits=(None, None))
        mk("minmax continuous reverse=%s" % rev, body_minmax,
           "2 variables, values in [-50,50]", nbins=[1, 1], reverse=rev,
           sym=("vals",), target="continuous")
        mk("minmax special reverse=%s" % rev, body_minmax,
           "1 variable, 2 special rows, empirical metrics", nbins=[2],
           reverse=rev, sym=("vals",), special=D, ms="empirical",
           mm="empirical")
    mk("pdo special", body_pdo, "1 variable, empirical metrics", nbins=[2],
       reverse=False, special=D, ms="empirical", mm="empirical")
    mk("pdo three variables", body_pdo, "3 variables", nbins=[1, 1, 1],
       reverse=False, tier="thorough")
    for ib in (False, True):
        for ms, mm in ((0, 0), ("empirical", "empirical"), (1.5, -2.0)):
            for sp in (None, D):
                mk("unscaled intercept=%s %s %s special=%s" % (
                    ib, ms, mm, sp and len(sp)), body_none,
                   "2 variables" if not sp else "1 variable",
                   nbins=[1, 1] if not sp else [2], ib=ib, ms=ms, mm=mm,
                   special=sp)
    mk("unscaled continuous", body_none, "2 variables", nbins=[2, 1],
       target="continuous")
    mk("refit without intercept", body_none, "2 variables", nbins=[1, 1],
       refit=True)
    return H
