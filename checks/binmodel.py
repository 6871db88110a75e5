"""Harness bodies for the binary optimal binning models (CP-SAT and MIP),
driven through OptimalBinning.fit with symbolic record weights, so that the
number of events and non-events of every prebin is an arbitrary integer."""

import numpy as np

from optbinning import OptimalBinning

from symex import core
from .lib import *


def data(c, n, hi=1000, lo=1):
    if isinstance(hi, list):        # known counts of some prebins
        E = [c.int("e%d" % i, lo, h) if isinstance(h, int) else h[0]
             for i, h in enumerate(hi)]
        N = [c.int("m%d" % i, lo, h) if isinstance(h, int) else h[1]
             for i, h in enumerate(hi)]
        return E, N
    E = [c.int("e%d" % i, lo, hi) for i in range(n)]
    N = [c.int("m%d" % i, lo, hi) for i in range(n)]
    return E, N


def fit(c, n, E, N, params):
    x, y, w = [], [], []
    for i in range(n):
        x += [float(i), float(i)]
        y += [0, 1]
        w += [N[i], E[i]]
    ob = OptimalBinning(user_splits=[i + 0.5 for i in range(n - 1)],
                        **params)
    ob.fit(np.array(x), np.array(y), sample_weight=arr(c, w))
    return ob


def tot(c, L, g):
    return c.sum([L[i] for i in g])


def rates(c, E, N, gs):
    return [c.div(tot(c, E, g), add(tot(c, N, g), tot(c, E, g)))
            for g in gs]


def spec_constraints(c, gs, E, N, p, n_samples, r, margin=0.0):
    """list of (label, condition): the constraints requested by the user.
    margin > 0 strengthens real-valued comparisons (completeness), < 0
    weakens them (soundness)."""
    out = []
    k = len(gs)
    size = [add(tot(c, E, g), tot(c, N, g)) for g in gs]
    ev = [tot(c, E, g) for g in gs]
    ne = [tot(c, N, g) for g in gs]
    if p.get("min_n_bins") is not None:
        out.append(("min_n_bins", core.s_ge(k, p["min_n_bins"])))
    if p.get("max_n_bins") is not None:
        out.append(("max_n_bins", core.s_le(k, p["max_n_bins"])))
    if p.get("min_bin_size") is not None:
        f = mul(p["min_bin_size"], n_samples)
        out.append(("min_bin_size", c.And([core.s_ge(s, f) for s in size])))
    if p.get("max_bin_size") is not None:
        f = mul(p["max_bin_size"], n_samples)
        out.append(("max_bin_size", c.And([core.s_lt(s, add(f, 1))
                                           for s in size])))
    for key, vals, op in (("min_bin_n_event", ev, core.s_ge),
                          ("max_bin_n_event", ev, core.s_le),
                          ("min_bin_n_nonevent", ne, core.s_ge),
                          ("max_bin_n_nonevent", ne, core.s_le)):
        if p.get(key) is not None:
            out.append((key, c.And([op(v, p[key]) for v in vals])))
    if p.get("min_event_rate_diff"):
        d = p["min_event_rate_diff"]
        out.append(("min_event_rate_diff", c.And(
            [core.s_ge(absv(sub(r[i], r[i + 1])), add(d, margin))
             for i in range(k - 1)])))
    return out


def body_feasible(c, n=3, hi=1000, **params):
    """every bin structure the model can return satisfies the request"""
    E, N = data(c, n, hi)
    p = dict(params)
    for key, (lo, hi_) in list(p.pop("sym", {}).items()):
        if key in ("min_bin_size", "max_bin_size", "min_event_rate_diff"):
            p[key] = c.real(key, lo, hi_)
        else:
            p[key] = c.int(key, lo, hi_)
    if p.get("min_n_bins") is not None and p.get("max_n_bins") is not None:
        c.assume(core.s_le(p["min_n_bins"], p["max_n_bins"]))
    if p.get("min_bin_size") is not None and \
            p.get("max_bin_size") is not None:
        c.assume(core.s_le(p["min_bin_size"], p["max_bin_size"]))
    for a in ("event", "nonevent"):
        lo_, hi_ = p.get("min_bin_n_" + a), p.get("max_bin_n_" + a)
        if lo_ is not None and hi_ is not None:
            c.assume(core.s_le(lo_, hi_))
    fixed = p.get("user_splits_fixed")
    ob = fit(c, n, E, N, p)
    if not c.symbolic:
        status_ok(c, ob.status)
    cuts = [i + 0.5 for i in range(n - 1)]
    sp = [float(s) for s in lst(ob.splits)]
    c.prove(all(any(abs(s - t) < 1e-9 for t in cuts) for s in sp) and
            sp == sorted(set(sp)), "splits are a subset of the candidates")
    gs = groups_of(n, sp, cuts)
    c.cover("bins=%d" % len(gs))
    r = rates(c, E, N, gs)
    for label, cond in spec_constraints(c, gs, E, N, p, 2 * n, r, -TOL6):
        c.prove(cond, label)
    if p.get("max_pvalue") is not None:
        prs = [(i, j) for i in range(len(gs)) for j in range(i + 1, len(gs))
               if j == i + 1 or p.get("max_pvalue_policy") == "all"]
        for i, j in prs:
            c.prove(ztest(c, E, N, gs[i], gs[j], p["max_pvalue"]),
                    "max_pvalue")
    if p.get("monotonic_trend"):
        c.prove(trend_ok(c, p["monotonic_trend"], r), "monotonic trend")
    if fixed is not None:
        c.prove(all(any(abs(s - cuts[i]) < 1e-9 for s in sp)
                    for i in range(n - 1) if fixed[i]), "fixed splits kept")


def ztest(c, E, N, g, h, pv):
    """two-proportion z statistic (pooled) at least the quantile"""
    from scipy import stats
    zs = float(stats.norm.ppf(1.0 - pv / 2))
    e1, e2 = tot(c, E, g), tot(c, E, h)
    n1, n2 = add(e1, tot(c, N, g)), add(e2, tot(c, N, h))
    p1, p2 = c.div(e1, n1), c.div(e2, n2)
    pp = c.div(add(e1, e2), add(n1, n2))
    var = mul(mul(pp, sub(1, pp)), add(c.div(1, n1), c.div(1, n2)))
    z = c.div(sub(p1, p2), core.s_sqrt(var))
    return core.s_ge(absv(z), zs if c.symbolic else zs - 1e-6)


TRENDS = ["ascending", "descending", "peak", "valley", "concave", "convex",
          "peak_heuristic", "valley_heuristic", None]


# -- optimality -------------------------------------------------------------
def no_inversion_split(c, gs, E, N, trend):
    """the partition does not separate a run of candidate intervals from the
    next one when merging them moves the rate against the trend (such splits
    are discarded beforehand, only if no other constraint is requested)"""
    conds = []
    for g in gs[:-1]:
        k = g[-1] + 1
        b = c.div(E[k], add(N[k], E[k]))
        for i in range(k):
            run = list(range(i, k + 1))
            a = c.div(tot(c, E, run), add(tot(c, N, run), tot(c, E, run)))
            if trend == "ascending":
                conds.append(core.s_le(a, b))
            elif trend == "descending":
                conds.append(core.s_le(b, a))
    return c.And(conds) if conds else True


def spec_valid(c, gs, E, N, p, n_samples, margin):
    r = rates(c, E, N, gs)
    conds = [x for _, x in spec_constraints(c, gs, E, N, p, n_samples, r,
                                            margin)]
    if p.get("max_pvalue") is not None:
        prs = [(i, j) for i in range(len(gs)) for j in range(i + 1, len(gs))
               if j == i + 1 or p.get("max_pvalue_policy") == "all"]
        conds += [ztest(c, E, N, gs[i], gs[j], p["max_pvalue"])
                  for i, j in prs]
    if p.get("monotonic_trend"):
        # coefficients of the MIP are floats: no claim about exact ties
        conds.append(trend_ok(c, p["monotonic_trend"], r, -margin,
                              p.get("solver") != "mip"))
    f = p.get("user_splits_fixed")
    if f is not None:
        ends = {g[-1] for g in gs}
        conds.append(all(i in ends for i, b in enumerate(f) if b))
    return c.And(conds) if conds else True


def sym_params(c, params):
    p = dict(params)
    for key, (lo, hi_) in list(p.pop("sym", {}).items()):
        if key in ("min_bin_size", "max_bin_size", "min_event_rate_diff"):
            p[key] = c.real(key, lo, hi_)
        else:
            p[key] = c.int(key, lo, hi_)
    if p.get("min_n_bins") is not None and p.get("max_n_bins") is not None:
        c.assume(core.s_le(p["min_n_bins"], p["max_n_bins"]))
    if p.get("min_bin_size") is not None and \
            p.get("max_bin_size") is not None:
        c.assume(core.s_le(p["min_bin_size"], p["max_bin_size"]))
    for a in ("event", "nonevent"):
        lo_, hi_ = p.get("min_bin_n_" + a), p.get("max_bin_n_" + a)
        if lo_ is not None and hi_ is not None:
            c.assume(core.s_le(lo_, hi_))
    return p


def bits_of(gs, n):
    ends = {g[-1] for g in gs}
    return [i in ends for i in range(n)]


def body_complete(c, n=3, hi=1000, scope=None, **params):
    """every admissible bin structure is reachable by the model"""
    from symex.core import Unsupported
    gs = c.choice("partition", partitions(n))
    E, N = data(c, n, hi)
    p = sym_params(c, params)
    if c.symbolic:
        c.meta["solve_mode"] = "collect"
        c.meta["force"] = "decoded"
        c.meta["bits"] = bits_of(gs, n)
    ob = fit(c, n, E, N, p)
    valid = spec_valid(c, gs, E, N, p, 2 * n, 2 * TOL6)
    if scope:
        valid = c.And(valid, scope(c, gs, E, N, p["monotonic_trend"]))
    label = "an admissible bin structure is in the search space"
    cuts = [i + 0.5 for i in range(n - 1)]
    if not c.symbolic:
        ok = ob.status in ("OPTIMAL", "FEASIBLE")
        c.assume(not ok or groups_of(n, lst(ob.splits), cuts) == gs)
        c.prove(not bool(valid) or ok, label)
        return
    sp = [float(s) for s in lst(ob.splits)]
    m = c.meta["models"][-1]
    bits = bits_of(gs, n)
    c.assume(groups_of(n, sp, cuts) == gs)
    # decoded variables on this path must be the partition
    for i, b in zip(m.decoded, bits):
        v = m.vars[i].b01
        c.assume(core.lift(v) if b else core.lift(core.z3.Not(v)))
    lv = m.leaves(bits)
    c.cover("bins=%d" % len(gs))
    rep = core.lift(core.z3.Or(*[a for a, _, _ in lv])) if lv else False
    c.prove(c.Or(c.Not(valid), rep), label)


def divergence_of(c, kind, gs, E, N):
    """divergence of a bin structure, from its definition"""
    te, tn = c.sum(E), c.sum(N)
    vals = []
    for g in gs:
        pr, q = c.div(tot(c, N, g), tn), c.div(tot(c, E, g), te)
        if kind == "iv":
            v = mul(sub(pr, q), core.s_log(c.div(pr, q)))
        elif kind == "js":
            m = mul(0.5, add(pr, q))
            v = mul(0.5, add(mul(pr, core.s_log(c.div(pr, m))),
                             mul(q, core.s_log(c.div(q, m)))))
        elif kind == "hellinger":
            v = mul(0.5, core.s_pow(sub(core.s_sqrt(pr), core.s_sqrt(q)), 2))
        else:
            v = c.div(core.s_pow(sub(pr, q), 2), add(pr, q))
        vals.append(v)
    return c.sum(vals)


def body_optimal(c, n=3, hi=1000, kind="iv", gamma=0, **params):
    """no reachable bin structure has a greater divergence than the result"""
    gs = c.choice("partition", partitions(n))
    E, N = data(c, n, hi)
    p = sym_params(c, params)
    if c.symbolic:
        c.meta["force"] = "none"
    if gamma:
        c.assume(core.s_eq(add(c.sum(E), c.sum(N)), hi))
    ob = fit(c, n, E, N, dict(p, divergence=kind, gamma=gamma))
    cuts = [i + 0.5 for i in range(n - 1)]
    res = groups_of(n, [float(s) for s in lst(ob.splits)], cuts)

    T = add(c.sum(E), c.sum(N))

    def minmax(g):
        sz = [add(tot(c, E, b), tot(c, N, b)) for b in g]
        mx, mn = sz[0], sz[0]
        for s in sz[1:]:
            mx, mn = core.s_max(mx, s), core.s_min(mn, s)
        return mx, mn

    def value(g):
        v = divergence_of(c, kind, g, E, N)
        if gamma:
            mx, mn = minmax(g)
            v = sub(v, mul(c.div(gamma, T), sub(mx, mn)))
        return v
    tol = (n + 1) * 1e-6
    if gamma:
        tol = tol + 1e-6 * hi
    label = "no admissible bin structure has a greater divergence"
    if not c.symbolic:
        c.assume(ob.status == "OPTIMAL")
        if bool(spec_valid(c, gs, E, N, p, 2 * n, 2 * TOL6)):
            c.prove(value(res) >= value(gs) - tol - 1e-9, label)
        return
    m = c.meta["models"][-1]
    for cond, obj, _ in m.leaves(bits_of(gs, n),
                                 aux=minmax(gs) if gamma else ()):
        if m.sense == "max":
            better = core.zr(m.obj) >= obj
        else:
            better = core.zr(m.obj) <= obj
        c._add(core.z3.Implies(cond, better))
        c.prove(c.Or(c.Not(core.lift(cond)),
                     core.s_ge(value(res), sub(value(gs), tol))), label)
    c.cover("compared")
