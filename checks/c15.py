"""C15: trend predicates, automatic trend selection, change points."""

from optbinning import (ContinuousOptimalBinning, MulticlassOptimalBinning,
                        OptimalBinning)
from optbinning.binning import auto_monotonic as AM

from . import binmodel as bm
from .lib import *

ASSUMPTIONS = [
    "fit-level harnesses: OR-Tools returns a solution of the posted model "
    "(contract stub)",
    "scipy's ConvexHull is replaced by the exact area of the hull of points "
    "with abscissae 0..n-1"]

MODES = {"auto": ("ascending", "descending", "peak", "valley"),
         "auto_heuristic": ("ascending", "descending", "peak", "valley"),
         "auto_asc_desc": ("ascending", "descending")}


def seq(c, n, lo=-10, hi=10, tag="r"):
    return [c.real("%s%d" % (tag, i), lo, hi) for i in range(n)]


def lts(c, r, i, j):
    return c.And([core.s_lt(r[k], r[k + 1]) for k in range(i, j)])


def les(c, r, i, j):
    return c.And([core.s_le(r[k], r[k + 1]) for k in range(i, j)])


def ges(c, r, i, j):
    return c.And([core.s_ge(r[k], r[k + 1]) for k in range(i, j)])


def gts(c, r, i, j):
    return c.And([core.s_gt(r[k], r[k + 1]) for k in range(i, j)])


def shape(c, r, kind):
    """exact (weak) shape predicate"""
    n = len(r) - 1
    if kind == "ascending":
        return les(c, r, 0, n)
    if kind == "descending":
        return ges(c, r, 0, n)
    if kind == "peak":
        return c.Or([c.And(les(c, r, 0, t), ges(c, r, t, n))
                     for t in range(n + 1)])
    if kind == "valley":
        return c.Or([c.And(ges(c, r, 0, t), les(c, r, t, n))
                     for t in range(n + 1)])
    # exact arithmetic in the solver, a small tolerance for the replay
    tol = 0 if c.symbolic else 1e-12
    if kind == "concave":
        return c.And([core.s_le(sub(add(r[i - 1], r[i + 1]), mul2(r[i])), tol)
                      for i in range(1, n)])
    return c.And([core.s_ge(sub(add(r[i - 1], r[i + 1]), mul2(r[i])), -tol)
                  for i in range(1, n)])


def body_type(c, n=4):
    r = seq(c, n)
    t = AM.type_of_monotonic_trend(arr(c, r))
    c.cover("run")
    if n == 1:
        c.prove(t == "undefined", "one value has no trend")
        return
    c.prove(t in ("ascending", "descending", "peak", "peak (concave)",
                  "valley", "valley (convex)", "no monotonic"),
            "documented trend")
    m = n - 1
    if t == "no monotonic":
        c.prove(c.Not(shape(c, r, "peak")), "a peak is recognised")
        c.prove(c.Not(shape(c, r, "valley")), "a valley is recognised")
    else:
        c.prove(shape(c, r, t.split()[0]), "the sequence has the trend")
    for a, k in (("peak", "concave"), ("valley", "convex")):
        if t.startswith(a):
            w = shape(c, r, k)
            if not c.symbolic and bool(w) != ("(" in t):
                # undecidable by rounding
                d = [abs(r[i - 1] + r[i + 1] - 2 * r[i])
                     for i in range(1, m)]
                c.assume(min(d) > 1e-9)
            c.prove(w if "(" in t else c.Not(w), "%s noted" % k)
    c.prove(c.Or(c.Not(lts(c, r, 0, m)), t == "ascending"),
            "strictly ascending recognised")
    c.prove(c.Or(c.Not(gts(c, r, 0, m)), t == "descending"),
            "strictly descending recognised")
    for k in range(1, m):
        c.prove(c.Or(c.Not(c.And(lts(c, r, 0, k), gts(c, r, k, m))),
                     t in ("peak", "peak (concave)")),
                "strict peak recognised")
        c.prove(c.Or(c.Not(c.And(gts(c, r, 0, k), lts(c, r, k, m))),
                     t in ("valley", "valley (convex)")),
                "strict valley recognised")


def body_changes(c, n=4):
    r = seq(c, n)
    k = AM.n_peaks_valleys(arr(c, r))
    c.cover("run")

    def sign(i):
        if bool(core.s_lt(r[i], r[i + 1])):
            return 1
        return -1 if bool(core.s_gt(r[i], r[i + 1])) else 0
    s = [sign(i) for i in range(n - 1)]
    c.prove(core.s_eq(k, sum(1 for i in range(n - 2) if s[i] != s[i + 1])),
            "number of trend changes")


def body_point(c, n=4, kind="peak_heuristic"):
    r = seq(c, n)
    t = int(AM.peak_valley_trend_change_heuristic(arr(c, r), kind))
    c.cover("run")
    f = core.s_ge if kind == "peak_heuristic" else core.s_le
    c.prove(0 <= t < n and c.And([f(r[t], v) for v in r]),
            "change point at the extreme value")
    g = core.s_gt if kind == "peak_heuristic" else core.s_lt
    c.prove(c.And([g(r[t], r[i]) for i in range(t)] or [True]),
            "first of the extreme values")


def data_of(c, n, target, hi=200):
    if target == "binary":
        e = [c.int("e%d" % i, 1, hi) for i in range(n)]
        q = [c.int("n%d" % i, 1, hi) for i in range(n)]
        size = [add(a, b) for a, b in zip(e, q)]
        return (q, e), size, [c.div(a, s) for a, s in zip(e, size)]
    size = [c.int("k%d" % i, 1, hi) for i in range(n)]
    s = [c.real("s%d" % i, -1000, 1000) for i in range(n)]
    return (size, s), size, [c.div(a, b) for a, b in zip(s, size)]


def call_data(c, target, d):
    a, b = d
    if target == "binary":
        return AM.auto_monotonic_data(arr(c, a, int), arr(c, b, int))
    return AM.auto_monotonic_data_continuous(arr(c, a, int), arr(c, b))


def body_data(c, n=3, target="binary"):
    """description of the sequence used to select the trend"""
    d, size, r = data_of(c, n, target)
    # distinct rates: positions of the extremes are unambiguous
    for i in range(n):
        for j in range(i):
            c.assume(core.s_ne(r[i], r[j]))
    D = call_data(c, target, d)
    c.cover("run")
    lo, hi = int(D["pos_min"]), int(D["pos_max"])
    c.prove(c.And([core.s_le(r[lo], v) for v in r]), "position of minimum")
    c.prove(c.And([core.s_ge(r[hi], v) for v in r]), "position of maximum")
    T = total(size)
    for nm, p in (("min", lo), ("max", hi)):
        c.prove(c.eq(mul(D["p_records_%s_left" % nm], T), total(size[:p])),
                "share of records left of " + nm)
        c.prove(c.eq(mul(D["p_records_%s_right" % nm], T),
                     total(size[p + 1:])), "share of records right of " + nm)
        c.prove(c.near(D["p_bins_%s_left" % nm], p / (n - 1)),
                "share of bins left of " + nm)
        c.prove(c.near(D["p_bins_%s_right" % nm], (n - 1 - p) / (n - 1)),
                "share of bins right of " + nm)
    # sense of the regression on the position
    slope = total([mul(i - (n - 1) / 2, v) for i, v in enumerate(r)])
    if not c.symbolic:
        c.assume(abs(slope) > 1e-9)
    c.prove(c.Or(core.s_eq(slope, 0), core.s_eq(
        D["lr_sense"], 1 if bool(core.s_gt(slope, 0)) else 0)),
        "sense of the regression")
    c.prove(core.s_eq(D["n_prebins"], n), "number of prebins")
    if n == 2:
        c.prove(core.s_eq(D["p_convex_hull"], 0) and
                core.s_eq(D["p_area"], 0), "areas")
        return
    rng = mul(n, sub(r[hi], r[lo]))

    def tri(p, q, s):
        return div(core.s_abs(add(add(
            mul(p[0], sub(q[1], s[1])), mul(q[0], sub(s[1], p[1]))),
            mul(s[0], sub(p[1], q[1])))), 2)
    a, b = (lo, r[lo]), (hi, r[hi])
    area = add(tri((0, r[0]), a, b), tri(a, b, (n, r[-1])))
    c.prove(c.eq(mul(D["p_area"], rng), area), "area of the extreme points")
    if n == 3:
        h = tri((0, r[0]), (1, r[1]), (2, r[2]))
        z = core.s_eq(h, 0)
        if not c.symbolic:
            c.assume(h > 1e-9)
        c.prove(c.Or(z, c.near(mul(D["p_convex_hull"], rng), h, 1e-9)),
                "area of the hull")


def call_auto(c, target, d, mode):
    a, b = d
    if target == "binary":
        return AM.auto_monotonic(arr(c, a, int), arr(c, b, int), mode)
    return AM.auto_monotonic_continuous(arr(c, a, int), arr(c, b), mode)


def body_auto(c, n=3, target="binary", mode="auto", inv=True):
    d, size, r = data_of(c, n, target)
    # the decision tree compares areas relative to the range of the rates
    c.assume(core.s_gt(core.s_abs(sub(r[0], r[-1])), 0)
             if n == 2 else c.Or([core.s_ne(r[0], v) for v in r[1:]]))
    t = call_auto(c, target, d, mode)
    c.cover(t)
    c.prove(t in MODES[mode], "selected trend is allowed by the option")
    if not inv:
        return
    # same rates and shares: same selection
    a, b = d
    if target == "binary":
        d2 = [mul(2, v) for v in a], [mul(2, v) for v in b]
    else:
        d2 = [mul(3, v) for v in a], [mul(6, v) for v in b]
    t2 = call_auto(c, target, d2, mode)
    c.prove(t == t2, "selection depends on rates and shares only")


def body_flat(c, n=3, target="binary", mode="auto"):
    """equal rates"""
    k = [c.int("k%d" % i, 1, 20) for i in range(n)]
    if target == "binary":
        d = ([mul(3, v) for v in k], [mul(2, v) for v in k])
    else:
        d = (k, [mul(2, v) for v in k])
    t = call_auto(c, target, d, mode)
    c.cover("run")
    c.prove(t in MODES[mode], "selected trend is allowed by the option")


def heur_ok(c, t, r, groups, tc):
    """bins ending before the change point follow the first direction, the
    others the second one"""
    a = [v for v, g in zip(r, groups) if g[-1] < tc]
    b = [v for v, g in zip(r, groups) if g[-1] >= tc]
    f, s = ("ascending", "descending") if t == "peak" else \
        ("descending", "ascending")
    return c.And(trend_ok(c, f, a), trend_ok(c, s, b))


def follow(c, mode, t, r, groups, rates, label=""):
    """r: bin values, rates: prebin values"""
    if mode.endswith("heuristic") and t in ("peak", "valley"):
        k = len(rates)
        for tc in range(k):
            f = core.s_gt if t == "peak" else core.s_lt
            g = core.s_ge if t == "peak" else core.s_le
            first = c.And([f(rates[tc], v) for v in rates[:tc]] +
                          [g(rates[tc], v) for v in rates[tc + 1:]])
            if bool(first):
                c.prove(heur_ok(c, t, r, groups, tc),
                        "bins follow the trend selected" + label)
    else:
        c.prove(trend_ok(c, t, r), "bins follow the trend selected" + label)


SHAPES = {          # narrow ranges of the event counts of prebins of 100
    "up": [(5, 12), (25, 32), (50, 57), (80, 87)],
    "down": [(80, 87), (50, 57), (25, 32), (5, 12)],
    "peak": [(20, 27), (70, 77), (40, 47), (10, 17)],
    "valley": [(70, 77), (20, 27), (40, 47), (80, 87)],
    "zigzag": [(30, 37), (60, 67), (20, 27), (90, 97)],
}


def fit_binary(c, n, mode, solver, sh="up"):
    E = [c.int("e%d" % i, *SHAPES[sh][i]) for i in range(n)]
    N = [sub(100, e) for e in E]
    r0 = [div(e, 100) for e in E]
    ob = bm.fit(c, n, E, N, dict(solver=solver, monotonic_trend=mode,
                                 divergence="triangular"))
    if not c.symbolic:
        status_ok(c, ob.status)
    cuts = [i + 0.5 for i in range(n - 1)]
    gs = groups_of(n, [float(s) for s in lst(ob.splits)], cuts)
    c.cover("run")
    r = [div(total([E[i] for i in g]), 100 * len(g)) for g in gs]
    t = mode.split("_")[0] if not mode.startswith("auto") else \
        AM.auto_monotonic(arr(c, N, int), arr(c, E, int), mode)
    follow(c, mode, t, r, gs, r0)


def fit_continuous(c, n, mode, sh="up"):
    c.meta["lazy"] = True
    Y = [[c.real("y%d" % i, *SHAPES[sh][i]), 10.0] for i in range(n)]
    S = [total(v) for v in Y]
    x = [float(i) for i in range(n) for _ in range(2)]
    ob = ContinuousOptimalBinning(
        user_splits=[i + 0.5 for i in range(n - 1)], monotonic_trend=mode)
    ob.fit(np.array(x), arr(c, [v for y in Y for v in y]))
    if not c.symbolic:
        status_ok(c, ob.status)
    cuts = [i + 0.5 for i in range(n - 1)]
    gs = groups_of(n, [float(s) for s in lst(ob.splits)], cuts)
    c.cover("run")
    r = [div(total([S[i] for i in g]), 2 * len(g)) for g in gs]
    t = mode.split("_")[0] if not mode.startswith("auto") else \
        AM.auto_monotonic_continuous(arr(c, [2] * n, int), arr(c, S), mode)
    follow(c, mode, t, r, gs, [div(v, 2) for v in S])


CLASSES = [[(10, 14), (25, 29), (35, 39), (50, 54)],
           [(20, 24), (60, 64), (30, 34), (10, 14)]]


def fit_multiclass(c, mode, solver, n=3):
    """three classes: the trend of every class, one against the rest"""
    from . import c07
    modes = mode if isinstance(mode, list) else [mode] * 3
    P = c07.Multi(c, 1, 98, [100])
    P.n, P.fixed = n, [100] * n
    P.W = []
    for i in range(n):
        w = [c.int("w%d_%d" % (i, k), *CLASSES[k][i]) if i == k + 1 else
             CLASSES[k][i][0] for k in range(2)]
        P.W.append(w + [sub(100, total(w))])
    ob = P.fit(c, dict(solver=solver, monotonic_trend=mode))
    if not c.symbolic:
        status_ok(c, ob.status)
    gs = P.groups(ob)
    c.cover("run")
    for k in range(3):
        m = modes[k]
        if m is None:
            continue
        E, N = P.E(k), P.N(k)
        t = m.split("_")[0] if not m.startswith("auto") else \
            AM.auto_monotonic(arr(c, N, int), arr(c, E, int), m)
        # a string applies the trend selected as such
        follow(c, m if isinstance(mode, list) else "", t,
               [div(total([E[i] for i in g]), 100 * len(g)) for g in gs],
               gs, [div(e, 100) for e in E], " for class %d" % k)


def harnesses(tier):
    H = []

    def mk(name, f, bounds, expect=("run",), tier="quick", weight=1, **p):
        H.append(Harness(name, lambda c: f(c, **p), bounds, expect=expect,
                         tier=tier, weight=weight,
                         timeout=240 if tier == "quick" else 1500))
    for n in (1, 2, 3, 4, 5):
        b = "%d real values in [-10,10]" % n
        mk("type n=%d" % n, body_type, b, n=n)
        if n > 1:
            mk("changes n=%d" % n, body_changes, b, n=n)
            for k in ("peak_heuristic", "valley_heuristic"):
                mk("%s n=%d" % (k, n), body_point, b, n=n, kind=k)
    mk("type n=6", body_type, "6 real values", n=6, tier="thorough")
    for tg in ("binary", "continuous"):
        for n in (2, 3, 4):
            mk("data %s n=%d" % (tg, n), body_data,
               "%d prebins, distinct rates" % n, n=n, target=tg,
               tier="quick" if n < 4 else "thorough")
            for m in MODES:
                mk("select %s %s n=%d" % (tg, m, n), body_auto,
                   "%d prebins" % n, expect=(), n=n, target=tg, mode=m,
                   inv=False, tier="quick" if n < 3 or n == 3 and (tg, m) in (
                       ("continuous", "auto"), ("binary", "auto_asc_desc"))
                   else "thorough")
                mk("invariance %s %s n=%d" % (tg, m, n), body_auto,
                   "%d prebins" % n, expect=(), n=n, target=tg, mode=m,
                   tier="quick" if n < 3 else "thorough")
        for m in MODES:
            mk("flat %s %s" % (tg, m), body_flat, "3 prebins of equal rate",
               n=3, target=tg, mode=m)
    for m in list(MODES) + ["peak_heuristic", "valley_heuristic", "peak",
                            "valley", "ascending", "descending"]:
        for sh in SHAPES:
            for s in ("cp", "mip"):
                q = (s, sh) in ((("cp", "peak"), ("mip", "zigzag"),
                                 ("mip", "valley")) if m in MODES else
                                (("cp", "zigzag"), ("mip", "peak")))
                mk("fit binary %s %s %s" % (s, m, sh), fit_binary,
                   "4 prebins, narrow ranges of counts", n=4, mode=m,
                   solver=s, sh=sh, tier="quick" if q else "thorough")
            mk("fit continuous %s %s" % (m, sh), fit_continuous,
               "4 prebins, narrow ranges of means", n=4, mode=m, sh=sh)
    for s in ("cp", "mip"):
        for m in list(MODES) + [
                ["peak_heuristic", "valley", None],
                ["auto_heuristic", None, "ascending"],
                [None, "peak", "valley_heuristic"],
                [None, "auto_asc_desc", "auto"]]:
            mk("fit multiclass %s %s" % (s, m), fit_multiclass,
               "3 prebins, 3 classes, narrow ranges of counts", mode=m,
               solver=s)
    return H
