"""C20: outlier detectors flag the values outside of their limits."""

from optbinning.binning import preprocessing as PP
from optbinning.binning.outlier import (ModifiedZScoreDetector,
                                        RangeDetector, YQuantileDetector)

from .c19 import ordered
from .lib import *

ASSUMPTIONS = ["numpy.percentile, quantile and median are replaced by their "
               "definition (linear interpolation) in the symbolic runs"]


def quantile(c, l, q):
    s = ordered(l)
    p = q * (len(s) - 1)
    k = min(int(math.floor(p + 1e-12)), len(s) - 1)
    f = p - k
    if f < 1e-9:
        return s[k]
    return add(s[k], mul(f, sub(s[k + 1], s[k])))


def median(c, l):
    return quantile(c, l, 0.5)


def ab(v):
    return sub(0, v) if bool(v < 0) else v


def flagged_range(c, l, length, k, method):
    """value -> flagged by definition, with the margin to the limit"""
    s = ordered(l)
    n = len(l)
    if method == "ETI":
        lb, ub = quantile(c, l, (1 - length) / 2), quantile(
            c, l, (1 + length) / 2)
    else:
        m = min(math.ceil(length * n - 1e-12), n - 1)
        j = 0
        for i in range(1, n - m):
            if bool(sub(s[i + m], s[i]) < sub(s[j + m], s[j])):
                j = i
        lb, ub = s[j], s[j + m]
    d = mul(k, sub(ub, lb))
    lo, hi = sub(lb, d), add(ub, d)
    return lambda v: (sub(lo, v), sub(v, hi))


def flagged_z(c, l, thr):
    m = median(c, l)
    mad = median(c, [ab(sub(v, m)) for v in l])
    lim = c.div(mul(thr, mad), 0.6745) if not c.symbolic else mul(
        1 / 0.6745, mul(thr, mad))
    return lambda v: (sub(sub(m, v), lim), sub(sub(v, m), lim))


def check(c, flags, l, out, what):
    """flags agree with the definition away from rounding of the limits"""
    for f, v in zip(flags, l):
        a, b = out(v)
        tol = 1e-7
        c.prove(c.Or([c.Not(f), a > -tol, b > -tol]),
                what + ": no value within the limits is flagged")
        c.prove(c.Or([f, c.And([a < tol, b < tol])]),
                what + ": every value outside of the limits is flagged")


def convex(c, flags, l):
    n = len(l)
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if len({i, j, k}) == 3:
                    c.prove(c.Or([flags[i], flags[k], c.Not(flags[j]),
                                  l[j] <= l[i], l[j] >= l[k]]),
                            "no value between two unflagged values is "
                            "flagged")


def values(c, n, name="x"):
    return [c.real("{}{}".format(name, i), -10, 10) for i in range(n)]


def body(c, n, make, spec, what):
    l = values(c, n)
    d = make()
    d.fit(arr(c, l))
    flags = lst(d.get_support())
    c.prove(len(flags) == n, "one flag per value")
    check(c, flags, l, spec(c, l), what)
    convex(c, flags, l)
    if not c.symbolic or n <= 4:
        idx = [int(i) for i in lst(d.get_support(indices=True))]
        fl = [bool(f) for f in flags]
        c.prove(idx == [i for i in range(n) if fl[i]],
                "indices are those of the flagged values")
        if any(fl):
            c.cover("flagged")
    c.cover("fitted")


def body_y(c, x, nbins, method, params, spec):
    """every quantile bin of x is treated on its own"""
    n = len(x)
    y = values(c, n, "y")
    d = YQuantileDetector(method, params, nbins)
    d.fit(np.array(x), arr(c, y))
    flags = lst(d.get_support())
    sp = np.unique(np.quantile(x, np.linspace(0, 1, nbins + 1)))[1:-1]
    c.cover("fitted")
    for k in range(len(sp) + 1):
        i = [r for r in range(n) if sum(x[r] >= s for s in sp) == k]
        if i:
            check(c, [flags[r] for r in i], [y[r] for r in i],
                  spec(c, [y[r] for r in i]), "bin {}".format(k))


def body_split(c, n, det, lb, ub, special):
    """outlier removal within the split of the data"""
    x = values(c, n)
    if special:
        c.assume(c.And([c.Not(c.eq(v, 5)) for v in x]))
    y = [0.0, 1.0, 1.0, 0.0, 1.0, 0.0][:n]
    xs = list(x)
    ys = list(y)
    if special:     # a special and a missing record are left alone
        xs[1:1] = [5.0]
        ys[1:1] = [1.0]
        xs.append(float("nan"))
        ys.append(1.0)
    kw = {}
    if lb is not None:
        kw["fix_lb"] = c.real("lb", -5, 0)
    if ub is not None:
        kw["fix_ub"] = c.real("ub", 0, 5)
    if det == "range":
        prm, spec = dict(k=0.5), flagged_range(c, x, 0.5, 0.5, "ETI")
    elif det == "zscore":
        prm, spec = dict(threshold=1.0), flagged_z(c, x, 1.0)
    else:
        prm, spec = None, lambda v: (-1, -1)
    r = PP.split_data("numerical", arr(c, xs), np.array(ys),
                      special_codes=[5.0] if special else None,
                      check_input=False, outlier_detector=det,
                      outlier_params=prm, **kw)
    xc, yc = lst(r[0]), lst(r[1])
    keep = []
    for v, t in zip(x, y):
        a, b = spec(v)
        # away from rounding of the limits
        c.assume(c.And([c.Or([a > 1e-6, a < -1e-6]) if det else True,
                        c.Or([b > 1e-6, b < -1e-6]) if det else True]))
        if bool(a > 0) or bool(b > 0):
            continue
        if lb is not None and bool(v < kw["fix_lb"]):
            continue
        if ub is not None and bool(v > kw["fix_ub"]):
            continue
        keep.append((v, t))
    c.cover("removed" if len(keep) < n else "kept")
    c.prove(len(xc) == len(yc) == len(keep),
            "exactly the records outside of the limits are removed")
    c.prove(c.And([c.And([c.eq(a, v), c.eq(b, t)])
                   for a, b, (v, t) in zip(xc, yc, keep)]),
            "the other records are unchanged and in order")
    if special:
        c.prove(len(lst(r[2])) == 1 and lst(r[3]) == [1.0]
                and [float(v) for v in lst(r[4])] == [5.0]
                and lst(r[5]) == [1.0],
                "special and missing records are kept")


def harnesses(tier):
    H = []

    def mk(name, f, bounds, cover, tier="quick"):
        H.append(Harness(name, f, bounds, expect=cover, tier=tier,
                         timeout=700))
    b = "every sample of {} values in [-10,10]"
    for n, t in ((3, "quick"), (4, "quick"), (5, "thorough")):
        for length, k, m in ((0.5, 1.5, "ETI"), (0.5, 0.25, "ETI"),
                             (0.25, 0.5, "ETI"), (1, 0, "ETI"),
                             (0.5, 0.25, "HDI"), (0.75, 0.25, "HDI"),
                             (1, 0.5, "HDI"), (0.25, 1.0, "HDI")):
            mk("range {} L={} k={} n={}".format(m, length, k, n),
               lambda c, n=n, a=(length, k, m): body(
                   c, n, lambda: RangeDetector(a[0], a[1], a[2]),
                   lambda c, l: flagged_range(c, l, *a), "range"),
               b.format(n), ("fitted",), t)
        for thr in (0.5, 1, 3.5) if n < 5 else ():
            mk("zscore {} n={}".format(thr, n),
               lambda c, n=n, thr=thr: body(
                   c, n, lambda: ModifiedZScoreDetector(thr),
                   lambda c, l: flagged_z(c, l, thr), "zscore"),
               b.format(n), ("fitted",), "quick" if n == 3 else "thorough")
    for i, (x, nb) in enumerate((([0.0, 1.0, 2.0, 3.0, 4.0], 2),
                                 ([2.0, 0.0, 1.0], 5),
                                 ([3.0, 1.0, 1.0, 2.0], 3),
                                 ([1.0, 1.0, 1.0], 2))):
        mk("yquantile range %d" % i, lambda c, x=x, nb=nb: body_y(
            c, x, nb, "range", dict(k=0.25), lambda c, l: flagged_range(
                c, l, 0.5, 0.25, "ETI")),
           "every y in [-10,10] of {} records".format(len(x)), ("fitted",))
        mk("yquantile zscore %d" % i, lambda c, x=x, nb=nb: body_y(
            c, x, nb, "zscore", dict(threshold=1.0),
            lambda c, l: flagged_z(c, l, 1.0)),
           "every y in [-10,10] of {} records".format(len(x)), ("fitted",))
    for det in (None, "range", "zscore"):
        for lb, ub in ((None, None), (1, None), (None, 1), (1, 1)):
            if det is None and lb is None and ub is None:
                continue
            for sp in (False, True):
                n = 3
                q = "quick" if sp else "thorough"
                mk("split {} lb={} ub={} special={}".format(det, lb, ub, sp),
                   lambda c, a=(n, det, lb, ub, sp): body_split(c, *a),
                   b.format(n), ("removed",) if det == "range" else
                   ("removed", "kept"), q)
    return H
