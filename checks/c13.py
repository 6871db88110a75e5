"""C13: scores of records and rounding of scorecard points."""

import z3

from optbinning.scorecard.rounding import RoundingMIP

from symex import ortx

from .sc import *
from .sc import _CUR

ASSUMPTIONS = [
    "the binning process and the estimator are stand-ins with arbitrary bin "
    "values, coefficients and intercept; the routing of records is C01",
    "rounding model: any solution within its constraints (the real solver "
    "returns one of them); limits are integers as the code requires"]

D = {"A": -9, "B": -8}


def check_scores(c, sc, vs, ms, mm):
    """score, predict, predict_proba and decision_function of every record"""
    rows, X = all_records(vs)
    P = points(sc, vs)
    got = lst(sc.score(X))
    c.prove(len(got) == len(rows), "one score per record")
    for r, g in zip(rows, got):
        c.prove(c.near(g, add(ssum(P[k][i] for k, i in enumerate(r)),
                              sc.intercept_)), "score of a record")
    lin = [add(intercept(), ssum(mul(k, v.value(i, ms, mm)) for k, v, i in
                                 zip(_CUR["coef"], vs, r))) for r in rows]
    for name in ("predict", "decision_function"):
        out = lst(getattr(sc, name)(X))
        for g, w in zip(out, lin):
            c.prove(c.near(g, w), name + " is the model of the bin values")
    out = sc.predict_proba(X)
    for i, w in enumerate(lin):
        c.prove(c.And(c.near(out[i, 1], w), c.near(out[i, 0], sub(1, w))),
                "predict_proba is the model of the bin values")
    return P, rows, lin


def body_score(c, nbins, special=None, ms=0, mm=0, target="binary",
               weights=False, **kw):
    with patch.cut_metrics(c):
        c.meta["fork_minmax"] = kw.get("scaling_method") == "min_max"
        vs = setup(c, nbins, special=special, target=target,
                   symbolic=kw.pop("sym", ("vals", "coef")))
        if kw.get("scaling_method") == "min_max":
            R = raw_points(vs, ms, mm)
            c.assume(core.s_ge(absv(sub(R[0][0], R[0][1])), 0.01))
        sw = np.array([1, 2, 1, 3]) if weights else None
        sc = fit(c, vs, target=target, ms=ms, mm=mm, sw=sw, **kw)
        P, rows, lin = check_scores(c, sc, vs, ms, mm)
        # the model is fitted on the bin values of the training records
        X, y, w = _CUR["fitted_on"]
        c.prove(w is sw, "sample weights reach the estimator")
        c.prove(_CUR["fit"][0] is sw and _CUR["fit"][1] == (
            "woe" if target == "binary" else "mean") and
            _CUR["fit"][2:] == (ms, mm), "metrics reach the binning process")
        if not kw.get("scaling_method") and not kw.get("intercept_based"):
            for r, l in zip(rows, lin):
                c.prove(c.near(add(ssum(P[k][i] for k, i in enumerate(r)),
                                   intercept()), l),
                        "points plus model intercept are the model output")


def is_int(c, v):
    return c.eq(v, core.s_round(v, 0)) if not core.is_sym(v) else \
        core.lift(z3.IsInt(core.zreal(v)))


def body_rint(c, nbins, ib=False, reverse=False, special=None):
    """nearest integer rounding of a PDO/odds scorecard"""
    with patch.cut_metrics(c):
        vs = setup(c, nbins, special=special, symbolic=("vals",))
        kw = dict(ms="empirical", mm="empirical", scaling_method="pdo_odds",
                  scaling_method_params={"pdo": 20, "odds": 10,
                                         "scorecard_points": 500},
                  reverse_scorecard=reverse, intercept_based=ib)
        a = fit(c, vs, **kw)
        b = fit(c, vs, rounding=True, **kw)
        for p, q in zip(points(a, vs), points(b, vs)):
            for u, v in zip(p, q):
                c.prove(c.And(core.s_le(sub(u, v), 0.5 + 1e-9),
                              core.s_le(sub(v, u), 0.5 + 1e-9)),
                        "rounded points are nearest")
                c.prove(is_int(c, v), "rounded points are integers")
        c.prove(core.s_le(absv(sub(a.intercept_, b.intercept_)), 0.5 + 1e-9),
                "rounded intercept")
        c.prove(is_int(c, b.intercept_), "rounded intercept is an integer")
        check_scores(c, b, vs, "empirical", "empirical")


def body_mip(c, npts, limits=(0, 10), hi=20):
    """any points whose extremes add up to the limits"""
    pts = [[c.real("p%d_%d" % (i, j), -hi, hi) for j in range(n)]
           for i, n in enumerate(npts)]
    a, b = limits
    if a is None:
        a, b = c.int("a", -hi, hi), c.int("b", -hi, hi)
    # the smallest points come first, the largest last
    for p in pts:
        for e in p[1:]:
            c.assume(core.s_le(p[0], e))
        for e in p[:-1]:
            c.assume(core.s_le(e, p[-1]))
    c.assume(c.eq(ssum(p[0] for p in pts), a))
    c.assume(c.eq(ssum(p[-1] for p in pts), b))
    names, col = [], []
    for i, p in enumerate(pts):
        names += ["x%d" % i] * len(p)
        col += p
    o = np.empty(len(col), dtype=object)
    o[:] = col
    df = pd.DataFrame({"Variable": names,
                       "Points": o if c.symbolic else o.astype(float)})
    m = RoundingMIP()
    m.build_model(df)
    st, sol = m.solve()
    c.prove(st in ("OPTIMAL", "FEASIBLE"), "a rounding exists")
    k, q = 0, []
    for p in pts:
        q.append(lst(sol[k:k + len(p)]))
        k += len(p)
    for p in q:
        for v in p:
            c.prove(is_int(c, v) if c.symbolic else
                    abs(v - round(v)) < 1e-6, "points are integers")
    for r in itertools.product(*[range(len(p)) for p in q]):
        s = ssum(q[i][j] for i, j in enumerate(r))
        c.prove(c.And(core.s_ge(s, sub(a, 1e-6)),
                      core.s_le(s, add(b, 1e-6))), "score limits")
    if c.symbolic:
        # the objective is the total deviation from the points
        mod = c.meta["models"][-1]
        dev = ssum(absv(sub(u, v)) for s, t in zip(pts, q)
                   for u, v in zip(s, t))
        c.prove(mod.sense == "min", "deviation is minimised")
        c.prove(core.s_ge(mod.obj, dev), "objective bounds the deviation")


def body_mip_exists(c, npts, limits, hi=8, dev=None):
    """the model is feasible: one of the candidate roundings of the extremes
    satisfies every posted constraint"""
    if not c.symbolic:
        return body_mip(c, npts, limits, hi)
    c.meta["solve_mode"] = "collect"
    c.meta["force"] = "none"
    pts = [[c.real("p%d_%d" % (i, j), -hi, hi) for j in range(n)]
           for i, n in enumerate(npts)]
    a, b = limits
    for p in pts:
        for e in p[1:]:
            c.assume(core.s_le(p[0], e))
        for e in p[:-1]:
            c.assume(core.s_le(e, p[-1]))
    c.assume(c.eq(ssum(p[0] for p in pts), a))
    c.assume(c.eq(ssum(p[-1] for p in pts), b))
    names, col = [], []
    for i, p in enumerate(pts):
        names += ["x%d" % i] * len(p)
        col += p
    o = np.empty(len(col), dtype=object)
    o[:] = col
    m = RoundingMIP()
    m.build_model(pd.DataFrame({"Variable": names, "Points": o}))
    mod = c.meta["models"][-1]
    free = mod.free_consts()
    fs = [z3.simplify(f) for f in mod.formulas()]
    fs = [g for f in fs for g in (f.children() if z3.is_and(f) else [f])]
    # continuous deviations first, then the points (they are bounded by the
    # extremes of their variable), the extremes last
    order = [v for v in free if not v.is_int()]
    rest = [v for v in free if v.is_int()]
    rest.sort(key=lambda v: sum(ortx._occurs(f, v) for f in fs))
    c.prove(core.lift(ortx._eliminate(fs, order + rest)),
            "a rounding exists")


def harnesses(tier):
    H = []

    def mk(name, f, bounds, tier="quick", weight=1, **p):
        H.append(Harness(name, lambda c: f(c, **dict(p)), bounds, tier=tier,
                         weight=weight))
    b = "bin values, coefficients and intercept in [-50,50], every record"
    for sp in (None, D):
        for ms, mm in ((0, 0), ("empirical", "empirical"), (1.5, -2.0),
                       ("empirical", 0.5), (-1.5, "empirical")):
            mk("score %s %s special=%s" % (ms, mm, sp and len(sp)),
               body_score, "2 variables, " + b, nbins=[2, 1], special=sp,
               ms=ms, mm=mm)
    mk("score weights", body_score, "2 variables, " + b, nbins=[2, 2],
       weights=True)
    mk("score continuous", body_score, "2 variables, " + b, nbins=[2, 2],
       target="continuous", ms=0.5, mm="empirical")
    mk("score intercept", body_score, "2 variables, " + b, nbins=[2, 1],
       intercept_based=True)
    mk("score three variables", body_score, "3 variables, " + b,
       nbins=[2, 1, 1], special=D, ms="empirical", mm=0)
    pd_ = {"pdo": 20, "odds": 50, "scorecard_points": 600}
    for ib in (False, True):
        mk("score pdo intercept=%s" % ib, body_score, "2 variables, " + b,
           nbins=[2, 1], intercept_based=ib, scaling_method="pdo_odds",
           scaling_method_params=pd_)
        mk("score minmax intercept=%s" % ib, body_score,
           "2 variables, values in [-50,50]", nbins=[2, 1],
           intercept_based=ib, sym=("vals",), scaling_method="min_max",
           scaling_method_params={"min": 0, "max": 100})
        for rev in (False, True):
            mk("rounding pdo intercept=%s reverse=%s" % (ib, rev), body_rint,
               "2 variables, values in [-50,50]", nbins=[2, 1], ib=ib,
               reverse=rev)
    for npts in ([2, 2], [3, 2], [2, 2, 2], [1, 3]):
        mk("rounding model %s" % npts, body_mip,
           "points in [-20,20], limits 0 and 10", npts=npts)
        mk("rounding model %s any limits" % npts, body_mip,
           "points and integer limits in [-20,20]", npts=npts,
           limits=(None, None))
    for npts, lim in (([2, 2], (1, 7)), ([3, 2], (1, 7)), ([1, 2], (0, 3))):
        mk("rounding exists %s" % npts, body_mip_exists,
           "points in [-8,8], limits %s" % (lim,), npts=npts, limits=lim)
    return H
