"""C07: continuous, multiclass and scenario-based binning models: every
result satisfies the request, every admissible result is reachable, and the
result is the best one for the objective."""

from optbinning import ContinuousOptimalBinning, MulticlassOptimalBinning
from optbinning.binning.uncertainty import SBOptimalBinning

from .binmodel import (bits_of, rates, sym_params, tot, ztest,
                       divergence_of)
from .lib import *

ASSUMPTIONS = [
    "OR-Tools returns a (best) assignment that satisfies the posted "
    "constraints (contract stub)",
    "multiclass and scenario counts of the prebins are symbolic: they "
    "replace the counts returned by the pre-binning refinement, the replay "
    "uses the corresponding records",
    "p-values of Welch tests are an uninterpreted function of the means, "
    "deviations and sizes of two bins",
    "a structure that meets a real-valued constraint with a margin below "
    "4e-6 may be missed (models scale rates and means to integers)",
    "peak and valley of several scenarios share one change point"]


class Problem:
    """a binning of n prebins"""

    def cuts(self):
        return [i + 0.5 for i in range(self.n - 1)]

    def n_samples(self, S):
        return total(S)

    def groups(self, ob):
        return groups_of(self.n, [float(s) for s in lst(ob.splits)],
                         self.cuts())

    def common(self, c, gs, p, margin):
        """limits on the number and size of bins"""
        out, k = [], len(gs)
        if p.get("min_n_bins") is not None:
            out.append(("min_n_bins", core.s_ge(k, p["min_n_bins"])))
        if p.get("max_n_bins") is not None:
            out.append(("max_n_bins", core.s_le(k, p["max_n_bins"])))
        for S in self.sizes():
            size = [tot(c, S, g) for g in gs]
            T = self.n_samples(S)
            if p.get("min_bin_size") is not None:
                f = mul(p["min_bin_size"], T)
                out.append(("min_bin_size", c.And([core.s_ge(s, f)
                                                   for s in size])))
            if p.get("max_bin_size") is not None:
                f = mul(p["max_bin_size"], T)
                out.append(("max_bin_size", c.And(
                    [core.s_lt(s, add(f, 1)) for s in size])))
        f = p.get("user_splits_fixed")
        if f is not None:
            ends = {g[-1] for g in gs}
            out.append(("fixed splits", all(i in ends for i, b in
                                            enumerate(f) if b)))
        return out


def diff_ok(c, r, d, margin):
    return c.And([core.s_ge(absv(sub(r[i], r[i + 1])), add(d, margin))
                  for i in range(len(r) - 1)])


def pairs(gs, p):
    return [(i, j) for i in range(len(gs)) for j in range(i + 1, len(gs))
            if j == i + 1 or p.get("max_pvalue_policy") == "all"]


class Cont(Problem):
    """two records per prebin: value y_i with weight a_i and z_i with b_i"""

    def __init__(self, c, n, mode="y", ylim=100, lazy=True):
        self.n, self.mode = n, mode
        if lazy:
            c.meta["lazy"] = True
        if mode == "y":
            self.a, self.b = [1] * n, [1] * n
            self.y = [c.real("y%d" % i, -ylim, ylim) for i in range(n)]
            self.z = [2.0 * (i % 2) for i in range(n)]
        elif mode == "yw":
            self.a, self.b = [1, 3, 2, 1][:n], [2, 1, 4, 1][:n]
            self.y = [c.real("y%d" % i, -ylim, ylim) for i in range(n)]
            self.z = [2.0 * (i % 2) for i in range(n)]
        else:
            self.a = [c.int("a%d" % i, 1, 500) for i in range(n)]
            self.b = [1] * n
            self.y = [float(v) for v in [-3, 5, 1, 2][:n]]
            self.z = list(self.y)
        if mode != "w":
            for v in self.y:        # zeros are counted by the table
                c.assume(core.s_ne(v, 0))
        self.R = [add(u, v) for u, v in zip(self.a, self.b)]
        self.S = [add(mul(u, s), mul(v, t)) for u, v, s, t in
                  zip(self.a, self.b, self.y, self.z)]
        self.SS = [add(mul(u, mul(s, s)), mul(v, mul(t, t))) for u, v, s, t in
                   zip(self.a, self.b, self.y, self.z)]

    def sizes(self):
        return [self.R]

    def n_samples(self, S):
        return 2 * self.n           # shares refer to unweighted records

    def fit(self, c, p):
        x = [float(i) for i in range(self.n) for _ in range(2)]
        y = [v for u in zip(self.y, self.z) for v in u]
        w = [v for u in zip(self.a, self.b) for v in u]
        ob = ContinuousOptimalBinning(user_splits=self.cuts(), **p)
        ob.fit(np.array(x), arr(c, y), sample_weight=arr(c, w, int))
        return ob

    def mean(self, c, g):
        return c.div(tot(c, self.S, g), tot(c, self.R, g))

    def valid(self, c, gs, p, margin):
        out = self.common(c, gs, p, margin)
        if p.get("min_mean_diff"):
            r = [self.mean(c, g) for g in gs]
            out.append(("min_mean_diff", diff_ok(c, r, p["min_mean_diff"],
                                                 margin)))
        if p.get("max_pvalue") is not None:
            for i, j in pairs(gs, p):
                a = []
                for g in (gs[i], gs[j]):
                    m, k = self.mean(c, g), tot(c, self.R, g)
                    v = sub(c.div(tot(c, self.SS, g), k), mul(m, m))
                    a += [m, core.s_sqrt(v), k]
                pv = sstats(c).ttest_ind_from_stats(*a, False)[1]
                out.append(("max_pvalue", core.s_le(pv, p["max_pvalue"])))
        t = p.get("monotonic_trend")
        if t is not None:
            r = [self.mean(c, g) for g in gs]
            r0 = [self.mean(c, [i]) for i in range(self.n)]
            out.append(("monotonic trend", trend(c, t, r, r0, gs, margin)))
        return out

    def objective(self, c, gs):
        m = c.div(total(self.S), total(self.R))
        return c.sum([absv(sub(self.mean(c, g), m)) for g in gs])


def trend(c, t, r, r0, gs, margin, ties=True):
    if t is None:
        return True
    if not t.endswith("heuristic"):
        return trend_ok(c, t, r, -margin, ties)
    f = core.s_gt if t.startswith("peak") else core.s_lt
    g = core.s_ge if t.startswith("peak") else core.s_le
    out = []
    for tc in range(len(r0)):
        first = c.And([f(r0[tc], v) for v in r0[:tc]] +
                      [g(r0[tc], v) for v in r0[tc + 1:]])
        a = [v for v, b in zip(r, gs) if b[-1] < tc]
        b_ = [v for v, b in zip(r, gs) if b[-1] >= tc]
        d = ("ascending", "descending")
        if t.startswith("valley"):
            d = d[::-1]
        out.append(c.Or(c.Not(first), c.And(
            trend_ok(c, d[0], a, -margin, ties),
            trend_ok(c, d[1], b_, -margin, ties))))
    return c.And(out)


def stub(c, ob, attrs, n_nonevent, n_event):
    """the counts of the prebins found by the refinement become symbolic"""
    real = ob._prebinning_refinement
    called = []

    def refinement(*a, **k):
        splits = real(*a, **k)[0]
        for key, v in attrs.items():
            setattr(ob, key, v)
        called.append(1)
        return splits, arr(c, n_nonevent, int), arr(c, n_event, int)
    ob._prebinning_refinement = refinement
    return called


def need(called):
    if not called:
        raise core.Unsupported("counts of the prebins were not requested")


class Multi(Problem):
    """three classes"""

    def __init__(self, c, n, hi=100, fixed=None, k=3, one=False):
        self.n, self.k = n, k
        self.W = []
        for i in range(n):
            if one:             # one prebin, and the first two classes
                v = c.int("w%d_0" % i, 1, 40) if i == 1 else [7, 8, 33][i]
                w = [v, [5, 30, 12][i], sub(fixed[i] - [5, 30, 12][i], v)]
                self.W.append(w)
                continue
            w = [c.int("w%d_%d" % (i, j), 1, hi) for j in range(k)]
            if fixed:
                c.assume(core.s_eq(total(w), fixed[i]))
            self.W.append(w)
        self.fixed = fixed

    def sizes(self):
        return [[total(w) for w in self.W]]

    def E(self, k):
        return [w[k] for w in self.W]

    def N(self, k):
        return [sub(self.fixed[i] if self.fixed else total(w), w[k])
                for i, w in enumerate(self.W)]

    def fit(self, c, p):
        ob = MulticlassOptimalBinning(user_splits=self.cuts(), **p)
        if c.symbolic:
            x = [float(i) for i in range(self.n) for _ in range(self.k)]
            y = list(range(self.k)) * self.n
            called = stub(c, ob, {"_n_samples": total(self.sizes()[0])},
                          [list(v) for v in zip(*[self.N(k) for k in
                                                  range(self.k)])], self.W)
            ob.fit(np.array(x), np.array(y))
            need(called)
            return ob
        x, y = [], []
        for i, w in enumerate(self.W):
            for j, m in enumerate(w):
                x += [float(i)] * m
                y += [j] * m
        ob.fit(np.array(x), np.array(y))
        return ob

    def valid(self, c, gs, p, margin):
        out = self.common(c, gs, p, margin)
        t = p.get("monotonic_trend")
        t = t if isinstance(t, list) else [t] * self.k
        for k in range(self.k):
            E, N = self.E(k), self.N(k)
            r = rates(c, E, N, gs)
            if p.get("min_event_rate_diff"):
                out.append(("min_event_rate_diff", diff_ok(
                    c, r, p["min_event_rate_diff"], margin)))
            if p.get("max_pvalue") is not None:
                out += [("max_pvalue", ztest(c, E, N, gs[i], gs[j],
                                             p["max_pvalue"]))
                        for i, j in pairs(gs, p)]
            r0 = rates(c, E, N, [[i] for i in range(self.n)])
            # coefficients of the MIP are floats: no claim about exact ties
            out.append(("monotonic trend", trend(
                c, t[k], r, r0, gs, margin, p.get("solver") != "mip")))
        return out

    def objective(self, c, gs):
        return c.sum([divergence_of(c, "iv", gs, self.E(k), self.N(k))
                      for k in range(self.k)])


class Scen(Problem):
    """several scenarios of a binary target"""

    def __init__(self, c, n, hi=100, fixed=None, k=2, weights=None,
                 one=False):
        self.n, self.k, self.w, self.fixed = n, k, weights, fixed
        self.Es = [[c.int("e%d_%d" % (s, i), 1, hi) for i in range(n)]
                   for s in range(k)]
        if one:                 # the second scenario is known
            self.Es[1] = [10, 40, 25][:n]
        if fixed:
            self.Ns = [[sub(fixed[i], self.Es[s][i]) for i in range(n)]
                       for s in range(k)]
            for v in self.Ns:
                for u in v:
                    c.assume(core.s_ge(u, 1))
        else:
            self.Ns = [[c.int("n%d_%d" % (s, i), 1, hi) for i in range(n)]
                       for s in range(k)]

    def sizes(self):
        return [[add(a, b) for a, b in zip(self.Es[s], self.Ns[s])]
                for s in range(self.k)]

    def fit(self, c, p):
        ob = SBOptimalBinning(user_splits=self.cuts(), **p)
        X, Y = [], []
        for s in range(self.k):
            x, y = [], []
            for i in range(self.n):
                for cl, m in ((0, self.Ns[s][i]), (1, self.Es[s][i])):
                    m = 1 if c.symbolic else m
                    x += [float(i)] * m
                    y += [cl] * m
            X.append(np.array(x))
            Y.append(np.array(y))
        if c.symbolic:
            T = [total(v) for v in self.sizes()]
            called = stub(c, ob, {"_n_samples": total(T),
                                  "_n_samples_scenario": T},
                          [list(v) for v in zip(*self.Ns)],
                          [list(v) for v in zip(*self.Es)])
            ob.fit(X, Y, weights=self.w)
            need(called)
        else:
            ob.fit(X, Y, weights=self.w)
        return ob

    def valid(self, c, gs, p, margin):
        out = self.common(c, gs, p, margin)
        t = p.get("monotonic_trend")
        R = [rates(c, self.Es[s], self.Ns[s], gs) for s in range(self.k)]
        for s in range(self.k):
            if p.get("min_event_rate_diff"):
                out.append(("min_event_rate_diff", diff_ok(
                    c, R[s], p["min_event_rate_diff"], margin)))
            if p.get("max_pvalue") is not None:
                out += [("max_pvalue", ztest(c, self.Es[s], self.Ns[s],
                                             gs[i], gs[j], p["max_pvalue"]))
                        for i, j in pairs(gs, p)]
        if t in ("peak", "valley"):
            d = ("ascending", "descending")
            d = d if t == "peak" else d[::-1]
            # common change point: a change between two bins
            alts = []
            for u in range(len(gs) + 1):
                alts.append(c.And([c.And(trend_ok(c, d[0], r[:u], -margin),
                                         trend_ok(c, d[1], r[u:], -margin))
                                   for r in R]))
            out.append(("monotonic trend", c.Or(alts)))
        elif t is not None:
            out.append(("monotonic trend", c.And(
                [trend_ok(c, t, r, -margin) for r in R])))
        return out

    def objective(self, c, gs):
        w = self.w or [1] * self.k
        return c.sum([mul(w[s] / max(w), divergence_of(
            c, "iv", gs, self.Es[s], self.Ns[s])) for s in range(self.k)])


def run(c, mk, params):
    P = mk(c)
    p = sym_params(c, params)
    with patch.cut_metrics(c, ("jeffrey",)):
        ob = P.fit(c, p)
    return P, p, ob


def body_feasible(c, mk, **params):
    P, p, ob = run(c, mk, params)
    if not c.symbolic:
        status_ok(c, ob.status)
    sp = [float(s) for s in lst(ob.splits)]
    c.prove(all(any(abs(s - t) < 1e-9 for t in P.cuts()) for s in sp) and
            sp == sorted(set(sp)), "splits are a subset of the candidates")
    gs = P.groups(ob)
    c.cover("bins=%d" % len(gs))
    for label, cond in P.valid(c, gs, p, -TOL6):
        c.prove(cond, label)


def body_complete(c, mk, n=3, **params):
    gs = c.choice("partition", partitions(n))
    if c.symbolic:
        c.meta["solve_mode"] = "collect"
        c.meta["force"] = "decoded"
        c.meta["bits"] = bits_of(gs, n)
    P, p, ob = run(c, mk, params)
    valid = c.And([v for _, v in P.valid(c, gs, p, 2 * TOL6)] or [True])
    label = "an admissible bin structure is in the search space"
    if not c.symbolic:
        ok = ob.status in ("OPTIMAL", "FEASIBLE")
        c.assume(not ok or P.groups(ob) == gs)
        c.prove(not bool(valid) or ok, label)
        return
    m = c.meta["models"][-1]
    bits = bits_of(gs, n)
    c.assume(P.groups(ob) == gs)
    for i, b in zip(m.decoded, bits):
        v = m.vars[i].b01
        c.assume(core.lift(v) if b else core.lift(core.z3.Not(v)))
    lv = m.leaves(bits)
    c.cover("bins=%d" % len(gs))
    rep = core.lift(core.z3.Or(*[a for a, _, _ in lv])) if lv else False
    c.prove(c.Or(c.Not(valid), rep), label)


def body_optimal(c, mk, n=3, tol=0, gamma=0, **params):
    gs = c.choice("partition", partitions(n))
    if c.symbolic:
        c.meta["force"] = "none"
    P = mk(c)
    p = sym_params(c, params)
    if gamma:
        p["gamma"] = gamma
    ob = P.fit(c, p)
    res = P.groups(ob)
    T = total(P.sizes()[0])

    def minmax(g):
        sz = [tot(c, P.sizes()[0], b) for b in g]
        mx, mn = sz[0], sz[0]
        for s in sz[1:]:
            mx, mn = core.s_max(mx, s), core.s_min(mn, s)
        return mx, mn

    def value(g):
        v = P.objective(c, g)
        if gamma:
            mx, mn = minmax(g)
            v = sub(v, mul(c.div(gamma, T), sub(mx, mn)))
        return v
    eps = (n + 1) * 4e-6 + tol
    if gamma:
        eps = eps + 1e-6 * 2000
    label = "no admissible bin structure has a greater objective"
    if not c.symbolic:
        c.assume(ob.status == "OPTIMAL")
        if all(bool(v) for _, v in P.valid(c, gs, p, 2 * TOL6)):
            c.prove(value(res) >= value(gs) - eps - 1e-9, label)
        return
    m = c.meta["models"][-1]
    for cond, obj, _ in m.leaves(bits_of(gs, n),
                                 aux=minmax(gs) if gamma else ()):
        better = core.zr(m.obj) >= obj if m.sense == "max" else \
            core.zr(m.obj) <= obj
        c._add(core.z3.Implies(cond, better))
        c.prove(c.Or(c.Not(core.lift(cond)),
                     core.s_ge(value(res), sub(value(gs), eps))), label)
    c.cover("compared")


TR = ["ascending", "descending", "peak", "valley", "concave", "convex",
      "peak_heuristic", "valley_heuristic"]
FIX = [60, 80, 100, 90]
LIM = [("n bins", dict(sym=dict(min_n_bins=(1, 3), max_n_bins=(1, 3)))),
       ("bin size", dict(sym=dict(min_bin_size=(0.001, 0.5),
                                  max_bin_size=(0.002, 0.9)))),
       ("min size", dict(sym=dict(min_bin_size=(0.001, 0.5)))),
       ("max size", dict(sym=dict(max_bin_size=(0.002, 0.9)))),
       ("fixed", dict(user_splits_fixed=[True, False]))]


def harnesses(tier):
    H = []

    def mk(kind, name, f, bounds, expect=(), tier="quick", weight=1, **p):
        H.append(Harness("%s %s" % (kind, name), lambda c: f(c, **p), bounds,
                         expect=expect, tier=tier, weight=weight,
                         timeout=240 if tier == "quick" else 1500))

    def both(name, M, bounds, n=3, tier="quick", ftier=None, **p):
        mk("feasible", name, body_feasible, bounds, ("bins=1",)
           if "fixed" not in name and "size" not in name else (), ftier or tier, mk=M, **p)
        mk("complete", name, body_complete, bounds, ("bins=1",)
           if "fixed" not in name else (), tier, mk=M, n=n, **p)
    yc = lambda c: Cont(c, 3)                                # noqa: E731
    yw = lambda c: Cont(c, 3, "yw")                          # noqa: E731
    wc = lambda c: Cont(c, 3, "w")                           # noqa: E731
    b = "3 prebins, "
    for t in TR:
        both("continuous " + t, yw if "heur" in t else yc,
             b + "2 records, means in [-50,51]", monotonic_trend=t)
    for nm, p in LIM:
        both("continuous " + nm, wc, b + "up to 501 records each",
             monotonic_trend=None, **p)
    both("continuous min diff", yw, b + "weighted records",
         monotonic_trend=None, sym=dict(min_mean_diff=(0.01, 20)))
    both("continuous min diff ascending", yw, b + "weighted records",
         monotonic_trend="ascending", sym=dict(min_mean_diff=(0.01, 20)))
    for pol in ("consecutive", "all"):
        both("continuous pvalue " + pol, yw, b + "weighted records",
             monotonic_trend=None, max_pvalue=0.05, max_pvalue_policy=pol)
    mk("objective", "continuous", body_optimal, b + "weighted records",
       ("compared",), mk=yw, monotonic_trend=None)
    mk("objective", "continuous gamma", body_optimal,
       "2 prebins of up to 501 records", ("compared",), gamma=2.0, n=2,
       mk=lambda c: Cont(c, 2, "w"), monotonic_trend=None)

    for s in ("cp", "mip"):
        mf = lambda c: Multi(c, 3, 98, FIX)                  # noqa: E731
        m1 = lambda c: Multi(c, 3, 98, FIX, one=True)        # noqa: E731
        ms = lambda c: Multi(c, 3, 30)                       # noqa: E731
        bm = b + "3 classes, 60 to 100 records each"
        q = dict(solver=s)
        for t in (["ascending", None, "descending"],
                  [None, "peak", None], ["valley", None, None],
                  ["concave", None, "convex"],
                  [None, None, "peak_heuristic"],
                  [None, "valley_heuristic", None]):
            h = any(v and "heur" in v for v in t)
            both("multiclass %s %s" % (s, [v for v in t if v]), mf, bm,
                 monotonic_trend=t, tier="thorough" if h else "quick",
                 ftier="quick", **q)
        for nm, p in LIM:
            both("multiclass %s %s" % (s, nm), mf if nm in (
                "n bins", "fixed") else ms, b + "3 classes, counts up to 30",
                monotonic_trend=None,
                tier="quick" if (s, nm) in (("cp", "bin size"), (
                    "mip", "min size"), ("mip", "fixed"), ("cp", "n bins"))
                else "thorough", **p, **q)
        both("multiclass %s min diff" % s, m1, bm, monotonic_trend=None,
             sym=dict(min_event_rate_diff=(0.01, 0.3)), **q)
        both("multiclass %s pvalue" % s, lambda c: Multi(
            c, 2, 98, FIX, one=True), "2 prebins, 3 classes", n=2,
            monotonic_trend=None, max_pvalue=0.05, **q)
        mk("objective", "multiclass " + s, body_optimal,
           "2 prebins, 3 classes", ("compared",), n=2, tol=2e-5,
           mk=lambda c: Multi(c, 2, 98, FIX, one=True),
           monotonic_trend=None, **q)
    sf = lambda c: Scen(c, 3, 98, FIX)                       # noqa: E731
    ss = lambda c: Scen(c, 3, 100)                           # noqa: E731
    bs = b + "2 scenarios, 60 to 100 records each"
    for t in TR[:6]:
        both("scenarios " + t, sf, bs, monotonic_trend=t)
    for nm, p in LIM:
        both("scenarios " + nm, ss, b + "2 scenarios, counts up to 100",
             monotonic_trend=None, **p)
    both("scenarios min diff", lambda c: Scen(c, 3, 59, FIX, one=True), bs,
         monotonic_trend=None, min_event_rate_diff=0.1)
    both("scenarios pvalue", lambda c: Scen(c, 2, 98, FIX),
         "2 prebins, 2 scenarios", n=2, monotonic_trend=None,
         max_pvalue=0.05)
    for w in (None, [0.35, 0.65], [3, 1]):
        mk("objective", "scenarios weights=%s" % w, body_optimal,
           "2 prebins, 2 scenarios", ("compared",), n=2, tol=2e-5,
           mk=lambda c, w=w: Scen(c, 2, 59, FIX, weights=w,
                                   one=bool(w)),
           monotonic_trend=None)
    return H
