"""C19: performance metrics equal their definitions."""

import contextlib

import matplotlib
matplotlib.use("Agg")

from optbinning.metrics import classification as CL
from optbinning.metrics import regression as RG
from optbinning.scorecard import plots as PL

from .lib import *

ASSUMPTIONS = ["scikit-learn's roc_curve, auc, confusion_matrix and "
               "regression scores are replaced by their definitions in the "
               "symbolic runs (the real ones run in the replays)"]


@contextlib.contextmanager
def using(c, mod, **kw):
    """replace names of a module in symbolic runs"""
    if not c.symbolic:
        yield
        return
    old = {k: getattr(mod, k) for k in kw if hasattr(mod, k)}
    for k in old:
        setattr(mod, k, kw[k])
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


def total(l):
    t = 0
    for e in l:
        t = add(t, e)
    return t


class Sk:
    """definitions of the scikit-learn functions"""

    def __init__(self, c):
        self.c = c

    def roc_curve(self, y, s, **k):
        y, s = lst(y), lst(s)
        n1 = sum(y)
        n0 = len(y) - n1
        order = [int(i) for i in npx.npf_argsort(arr(self.c, s))][::-1]
        fpr, tpr, f, t = [0], [0], 0, 0
        for k, i in enumerate(order):
            if y[i]:
                t += 1
            else:
                f += 1
            if k + 1 == len(order) or bool(self.c.Not(self.c.eq(
                    s[i], s[order[k + 1]]))):
                fpr.append(f / n0)
                tpr.append(t / n1)
        return np.array(fpr), np.array(tpr), None

    def auc(self, x, y):
        x, y = lst(x), lst(y)
        return total([mul(sub(x[i + 1], x[i]), mul(0.5, add(y[i], y[i + 1])))
                      for i in range(len(x) - 1)])

    def roc_auc_score(self, y, s, **k):
        f, t, _ = self.roc_curve(y, s)
        return self.auc(f, t)

    def confusion_matrix(self, y, p, **k):
        y, p = [int(v) for v in lst(y)], [int(v) for v in lst(p)]
        m = np.zeros((2, 2), dtype=int)
        for a, b in zip(y, p):
            m[a, b] += 1
        labels = sorted(set(y) | set(p))
        return m[np.ix_(labels, labels)]

    def mean_absolute_error(self, y, p):
        return self.c.div(total([ab(sub(a, b)) for a, b in
                                 zip(lst(y), lst(p))]), len(y))

    def mean_squared_error(self, y, p):
        return self.c.div(total([mul(sub(a, b), sub(a, b)) for a, b in
                                 zip(lst(y), lst(p))]), len(y))

    def median_absolute_error(self, y, p):
        return median(self.c, [ab(sub(a, b))
                               for a, b in zip(lst(y), lst(p))])

    def r2_score(self, y, p):
        return self.c.uf("r2", *(lst(y) + lst(p)))

    def explained_variance_score(self, y, p):
        return self.c.uf("ev", *(lst(y) + lst(p)))


REG = ("mean_absolute_error", "mean_squared_error", "median_absolute_error",
       "r2_score", "explained_variance_score")


def ab(v):
    return neg(v) if bool(v < 0) else v


def neg(v):
    return sub(0, v)


def ordered(l):
    """insertion sort by comparisons"""
    out = []
    for v in l:
        k = 0
        while k < len(out) and bool(out[k] <= v):
            k += 1
        out.insert(k, v)
    return out


def median(c, l):
    s = ordered(l)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return c.div(add(s[n // 2 - 1], s[n // 2]), 2)


def labels(c, n, name="y"):
    """0/1 labels decided by the solver"""
    return [1 if bool(c.eq(c.int("{}{}".format(name, i), 0, 1), 1)) else 0
            for i in range(n)]


def both(c, y):
    ok = 0 < sum(y) < len(y)
    if not ok:
        c.assume(False)


def body_gini(c, n, ties=True):
    y = labels(c, n)
    both(c, y)
    s = [c.real("s%d" % i, 0, 1) for i in range(n)]
    sk = Sk(c)
    Y, S = np.array(y), arr(c, s)
    with using(c, CL, roc_curve=sk.roc_curve, auc=sk.auc):
        g = CL.gini(Y, S)
    conc = disc = pairs = 0
    for i in range(n):
        for j in range(n):
            if y[i] == 1 and y[j] == 0:
                pairs += 1
                if bool(s[i] > s[j]):
                    conc += 1
                elif bool(s[i] < s[j]):
                    disc += 1
    c.cover("gini")
    c.prove(c.near(g, (conc - disc) / pairs),
            "Gini is the share of concordant minus discordant pairs")


def ks_def(c, y, s):
    """values of the difference of the two distributions at every score"""
    n = len(y)
    n1 = sum(y)
    out = []
    for t in s:
        a = b = 0
        for k in range(n):
            if bool(s[k] <= t):
                if y[k]:
                    b += 1
                else:
                    a += 1
        out.append(a / (n - n1) - b / n1)
    return out


def body_ks(c, n):
    y = labels(c, n)
    both(c, y)
    s = [c.real("s%d" % i, 0, 1) for i in range(n)]
    v, pos = CL.ks(np.array(y), arr(c, s))
    d = ks_def(c, y, s)
    c.cover("ks")
    c.prove(c.near(v, max(d)), "KS is the largest difference of the "
            "distributions of non-events and events")
    at = ordered(s)[int(pos)]
    c.prove(c.Or([c.And([c.eq(at, s[i])]) for i in range(n)
                  if abs(d[i] - max(d)) < 1e-9]),
            "the KS position is a record where the difference is largest")
    p = list(range(n))[::-1]
    v2, _ = CL.ks(np.array([y[i] for i in p]), arr(c, [s[i] for i in p]))
    c.prove(c.near(v, v2), "KS does not depend on the order of records")


class Plt:
    """records what is drawn"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a, **k):
            self.calls.append((name, a, k))
        return f


def body_plots(c, n):
    y = labels(c, n)
    both(c, y)
    s = [c.real("s%d" % i, 0, 1) for i in range(n)]
    for i in range(n):      # cumulative curves are defined without ties
        for j in range(i):
            c.assume(c.Or([s[i] - s[j] >= 0.001, s[j] - s[i] >= 0.001]))
    plt = Plt()
    sk = Sk(c)
    old = PL.plt
    Y, S = np.array(y), arr(c, s)
    PL.plt = plt
    kw = dict(roc_curve=sk.roc_curve, roc_auc_score=sk.roc_auc_score,
              check_array=lambda a, **k: a,
              check_consistent_length=lambda *a: None)
    try:
        with using(c, PL, **kw):
            PL.plot_ks(Y, S)
            ks = list(plt.calls)
            del plt.calls[:]
            PL.plot_cap(Y, S)
            cap = list(plt.calls)
    finally:
        PL.plt = old
    c.cover("plots")
    o = [int(i) for i in npx.npf_argsort(arr(c, s))] if c.symbolic \
        else list(np.argsort(s))
    ys = [y[i] for i in o]
    n1 = sum(y)
    lines = {k.get("label"): a for f, a, k in ks if f == "plot"}
    x, e = [lst(v) for v in lines["Cumulative events"]]
    x0, z = [lst(v) for v in lines["Cumulative non-events"]]
    for k in range(n):
        c.prove(c.And([c.near(x[k], s[o[k]]), c.near(x0[k], s[o[k]])]),
                "KS plot: curves are drawn at the sorted scores")
        c.prove(c.near(e[k], sum(ys[:k + 1]) / n1),
                "KS plot: cumulative share of events")
        c.prove(c.near(z[k], (k + 1 - sum(ys[:k + 1])) / (n - n1)),
                "KS plot: cumulative share of non-events")
    model = [a for f, a, k in cap if f == "plot"
             and str(k.get("label")).startswith("Model")][0]
    px, py = [lst(v) for v in model]
    for k in range(n + 1):
        c.prove(c.near(px[k], k / n), "CAP plot: share of the population")
        c.prove(c.near(py[k], sum(ys[::-1][:k]) / n1),
                "CAP plot: share of events among the highest scores")


def body_confusion(c, n):
    y = labels(c, n)
    p = labels(c, n, "p")
    both(c, y)
    sk = Sk(c)
    with using(c, CL, confusion_matrix=sk.confusion_matrix), \
            np.errstate(all="ignore"):
        d = CL.imbalanced_classification_metrics(np.array(y), np.array(p))
    tp = sum(a * b for a, b in zip(y, p))
    tn = sum((1 - a) * (1 - b) for a, b in zip(y, p))
    n1 = sum(y)
    n0 = n - n1
    sens, spec = tp / n1, tn / n0
    c.cover("metrics")
    want = {"True positive rate": sens, "True negative rate": spec,
            "False positive rate": 1 - spec, "False negative rate": 1 - sens,
            "Balanced accuracy": (sens + spec) / 2}
    c.prove(set(d) == set(want) | {"Discriminant power"},
            "all metrics are reported")
    for k, v in want.items():
        c.prove(c.near(d[k], v), k + " equals its definition")
    if 0 < sens < 1 and 0 < spec < 1:
        dp = math.sqrt(3) / math.pi * (math.log(sens / (1 - sens))
                                       + math.log(spec / (1 - spec)))
        c.prove(c.near(d["Discriminant power"], dp),
                "Discriminant power equals its definition")
        c.cover("power")


TRUE = [2.0, -4.0, 5.0, 0.5]


def body_regression(c, n, sym):
    if "y" in sym:
        y = [c.real("y%d" % i, -10, 10) for i in range(n)]
        for v in y:
            c.assume(c.Or([v >= 0.25, v <= -0.25]))
    else:
        y = TRUE[:n]
    p = [c.real("p%d" % i, -10, 10) for i in range(n)] if "p" in sym \
        else [1.5, -5.0, 7.0, 0.25][:n]
    sk = Sk(c)
    Y, P = arr(c, y), arr(c, p)
    with using(c, RG, **{k: getattr(sk, k) for k in REG}):
        d = RG.regression_metrics(Y, P)
        ref = {"Mean absolute error": "mean_absolute_error",
               "Mean squared error": "mean_squared_error",
               "Median absolute error": "median_absolute_error",
               "R^2": "r2_score",
               "Explained variance": "explained_variance_score"}
        c.cover("regression")
        for k, f in ref.items():
            w = getattr(RG, f)(Y, P)
            c.prove(same(c, d[k], w), k + " is that of scikit-learn")
    c.prove(same(c, d["Mean absolute error"], sk.mean_absolute_error(Y, P)),
            "mean absolute error equals its definition")
    for k in PCT:
        c.prove(same(c, d[k], percentage(c, k, y, p)),
                k + " equals its definition")


PCT = {"MPE": "mean_percentage_error",
       "MAPE": "mean_absolute_percentage_error",
       "MdAPE": "median_absolute_percentage_error",
       "SMAPE": "symmetric_mean_absolute_percentage_error",
       "SMdAPE": "symmetric_median_absolute_percentage_error"}


def percentage(c, k, y, p):
    e = [sub(a, b) for a, b in zip(y, p)]
    if k.startswith("S"):
        r = [c.div(ab(v), add(ab(a), ab(b))) for v, a, b in zip(e, y, p)]
    else:
        r = [c.div(v, a) for v, a in zip(e, y)]
        if k != "MPE":
            r = [ab(v) for v in r]
    if "Md" in k:
        return median(c, r)
    return c.div(total(r), len(y))


def body_one(c, n, metric):
    y = TRUE[:n]
    p = [c.real("p%d" % i, -10, 10) for i in range(n)]
    v = getattr(RG, PCT[metric])(arr(c, y), arr(c, p))
    c.cover("regression")
    c.prove(same(c, v, percentage(c, metric, y, p)),
            metric + " equals its definition")


def same(c, a, b):
    if not c.symbolic:
        a, b = float(a), float(b)
        if a != a and b != b:
            return True
    return c.near(a, b)


def harnesses(tier):
    H = []

    def mk(name, body, cover, tier="quick", **p):
        H.append(Harness(name, lambda c: body(c, **p),
                         "every sample of {} records".format(p["n"]),
                         expect=cover, tier=tier, timeout=600))
    for n in (2, 3, 4, 5):
        t = "quick" if n < 5 else "thorough"
        mk("gini n=%d" % n, body_gini, ("gini",), t, n=n)
        mk("ks n=%d" % n, body_ks, ("ks",), t, n=n)
    for n in (3, 4):
        mk("plots n=%d" % n, body_plots, ("plots",),
           "quick" if n < 4 else "thorough", n=n)
    mk("confusion n=4", body_confusion, ("metrics", "power"), n=4)
    mk("confusion n=5", body_confusion, ("metrics", "power"), "thorough", n=5)
    for n in (3, 4):
        for m in PCT:
            mk("{} n={}".format(m, n), body_one, ("regression",),
               "quick" if n < 4 else "thorough", n=n, metric=m)
    for n in (1, 2, 3):
        t = "quick" if n < 3 else "thorough"
        mk("regression predictions n=%d" % n, body_regression,
           ("regression",), t, n=n, sym="p")
        if n < 3:
            mk("regression targets n=%d" % n, body_regression,
               ("regression",), "quick", n=n, sym="y")
    mk("regression both n=1", body_regression, ("regression",), n=1,
       sym="py")
    mk("regression both n=2", body_regression, ("regression",), "thorough",
       n=2, sym="py")
    return H
