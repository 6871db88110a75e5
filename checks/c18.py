"""C18: scorecard monitoring counts every record once and reports the
population stability index by its definition."""

import pandas as pd

from optbinning import (BinningProcess, ContinuousOptimalBinning,
                        OptimalBinning)
from optbinning.scorecard import Scorecard, ScorecardMonitoring
from optbinning.scorecard import monitoring as MO

from .c19 import TRUE, body_confusion, ordered, using  # noqa: F401
from .lib import *

ASSUMPTIONS = ["the scorecard is a stand-in giving arbitrary scores, "
               "predictions and bins; the split points of the scores are "
               "given", "statistical tests are uninterpreted functions of "
               "their arguments", "performance metrics are those of C19"]

SPLITS = [10.0, 20.0]
BINS = ["(-inf, 10.00)", "[10.00, 20.00)", "[20.00, inf)"]


class Optb:
    def __init__(self, name):
        self.name = name

    def transform(self, x, metric=None, **k):
        return np.array([int(v) for v in lst(x)])


class BP(BinningProcess):
    def get_support(self, indices=False, names=False):
        return np.array(self.variable_names)

    def get_binned_variable(self, name):
        return _C.get("optb") or Optb(name)


class SC(Scorecard):
    """stand-in: columns of the data are the results"""

    def score(self, X):
        return _col(X, "score")

    def predict(self, X):
        return _col(X, "pred")

    def predict_proba(self, X):
        p = _col(X, "proba")
        return np.stack([1 - p, p], axis=1)

    def table(self, style="summary"):
        if _C.get("optb"):
            return pd.DataFrame({"Variable": "x0", "Bin": _C["rows"]})
        return pd.DataFrame({
            "Variable": [v for v in self.binning_process_.variable_names
                         for _ in range(NROWS)],
            "Bin": [v + "_" + str(i) for v in
                    self.binning_process_.variable_names
                    for i in range(NROWS)]})


NROWS = 4
_C = {}


def _col(X, name):
    return arr(_C["c"], list(X[name].values),
               int if name == "pred" else float)


class Prebin:
    def __init__(self, **k):
        self.k = k

    def fit(self, x, y):
        self.splits = np.array(_C["splits"])
        _C["fitted"] = (lst(x), lst(y), self.k)
        return self


def frame(d):
    out = {}
    for k, v in d.items():
        a = np.empty(len(v), dtype=object)
        a[:] = v
        out[k] = a if _C["c"].symbolic else np.array(v)
    return pd.DataFrame(out)


def monitor(c, target, act, exp, ya, ye, splits, variables=("x0",),
            optb=None, **kw):
    """fit the real monitoring class to the given results"""
    _C.clear()
    _C.update(c=c, splits=splits)
    if optb:
        _C.update(optb=optb[0], rows=optb[1])
    sc = SC(binning_process=BP(list(variables)), estimator=None)
    sc._is_fitted = True
    sc.binning_process_ = sc.binning_process
    m = ScorecardMonitoring(sc, psi_method="quantile", psi_n_bins=7,
                            psi_min_bin_size=0.125, **kw)
    if c.symbolic:
        c.meta["type_of_target"] = target
    if target == "binary":
        repl = dict(imbalanced_classification_metrics=lambda y, p: {
            "m": c.uf("metric", *(lst(y) + lst(p)))},
            gini=lambda y, p: c.uf("gini", *(lst(y) + lst(p))))
    else:
        repl = dict(regression_metrics=lambda y, p: {
            "m": c.uf("metric", *(lst(y) + lst(p)))})
    old = MO.PreBinning
    MO.PreBinning = Prebin
    try:
        with using(c, MO, stats=sstats(c), **repl), \
                np.errstate(all="ignore"):
            m.fit(frame(act), _y(c, ya, target), frame(exp),
                  _y(c, ye, target))
    finally:
        MO.PreBinning = old
    return m


def _y(c, y, target):
    return arr(c, y, int if target == "binary" else float)


def placed(c, scores, splits):
    """bin of every score, decided by the solver"""
    out = []
    for s in scores:
        out.append(sum([bool(s >= t) for t in splits]))
    return out


def psi_term(a, e):
    if a == e:
        return 0.0
    if a == 0 or e == 0:
        return math.inf
    return (a - e) * math.log(a / e)


def close(c, v, w):
    """v is w (a number of Python)"""
    if isinstance(v, float) and (math.isinf(v) or math.isnan(v)) \
            or math.isinf(w):
        return v == w
    return c.near(v, w)


def body_system(c, na, ne, target, labels=True, sort=False):
    sa = [c.real("a%d" % i, 0, 30) for i in range(na)]
    se = [c.real("e%d" % i, 0, 30) for i in range(ne)]
    if target == "binary":
        ya = [c.int("ya%d" % i, 0, 1) for i in range(na)] if labels \
            else [i % 2 for i in range(na)]
        ye = [c.int("ye%d" % i, 0, 1) for i in range(ne)] if labels \
            else [(i + 1) % 2 for i in range(ne)]
        if not c.symbolic or labels:
            for y in (ya, ye):      # both classes in both samples
                c.assume(c.Or([c.eq(v, 1) for v in y]))
                c.assume(c.Or([c.eq(v, 0) for v in y]))
        if labels:       # decide the labels
            ya = [1 if bool(c.eq(v, 1)) else 0 for v in ya]
            ye = [1 if bool(c.eq(v, 1)) else 0 for v in ye]
    else:
        ya = [c.real("ya%d" % i, -10, 10) for i in range(na)]
        ye = [c.real("ye%d" % i, -10, 10) for i in range(ne)]
        if not c.symbolic and any(float(v).is_integer() for v in ya + ye):
            # continuous by type
            ya = [v + 1e-9 for v in ya]
            ye = [v + 1e-9 for v in ye]
    if sort:                 # records in the order of their targets
        for y in (ya, ye):
            c.assume(c.And([core.s_le(p, q) for p, q in zip(y, y[1:])]))
    ba, be = placed(c, sa, SPLITS), placed(c, se, SPLITS)
    x = [0] * na
    pr = [i % 2 for i in range(na)]
    pe = [i % 2 for i in range(ne)]
    pp = [0.25, 0.5, 0.75, 0.5, 0.25]
    act = {"score": sa, "pred": pr, "proba": pp[:na], "x0": x}
    exp = {"score": se, "pred": pe, "proba": pp[:ne], "x0": [0] * ne}
    m = monitor(c, target, act, exp, ya, ye, SPLITS)
    f = _C["fitted"]
    c.prove(c.And([c.eq(v, w) for v, w in zip(f[0], se)]
                  + [c.eq(v, w) for v, w in zip(f[1], ye)])
            if len(f[0]) == ne and len(f[1]) == ne else False,
            "score bins are those of the expected sample")
    c.prove(f[2] == dict(problem_type="classification" if target == "binary"
                         else "regression", method="quantile", n_bins=7,
                         min_bin_size=0.125),
            "score bins follow the requested options")
    df = m.psi_table()
    c.prove(list(df["Bin"].values[:-1]) == BINS,
            "the table lists the bins of the scores")
    c.cover("table")
    tot = 0.0
    for k in range(3):
        ca, ce = ba.count(k), be.count(k)
        c.prove(c.And([c.eq(df["Count A"].values[k], ca),
                       c.eq(df["Count E"].values[k], ce)]),
                "records are counted in the bin of their score")
        c.prove(c.And([c.near(df["Count A (%)"].values[k], ca / na),
                       c.near(df["Count E (%)"].values[k], ce / ne)]),
                "shares are those of the records of the sample")
        t = psi_term(ca / na, ce / ne)
        tot += t
        c.prove(close(c, df["PSI"].values[k], t),
                "the PSI of a bin is that of its shares")
    c.prove(c.And([c.eq(df["Count A"].values[-1], na),
                   c.eq(df["Count E"].values[-1], ne),
                   close(c, df["PSI"].values[-1], tot)]),
            "totals add up all bins")
    dt = m.tests_table()
    c.prove(list(dt["Bin"].values) == BINS, "tests cover the score bins")
    for k in range(3):
        ia = [i for i in range(na) if ba[i] == k]
        ie = [i for i in range(ne) if be[i] == k]
        c.prove(c.And([c.eq(dt["Count A"].values[k], len(ia)),
                       c.eq(dt["Count E"].values[k], len(ie))]),
                "tests use the records of the bin")
        st = (dt["statistic"].values[k], dt["p-value"].values[k])
        if target == "binary":
            ea, ee = sum(ya[i] for i in ia), sum(ye[i] for i in ie)
            if ia:
                c.prove(c.near(dt["Event rate A"].values[k], ea / len(ia)),
                        "event rates are those of the records of the bin")
            if ie:
                c.prove(c.near(dt["Event rate E"].values[k], ee / len(ie)),
                        "event rates are those of the records of the bin")
            obs = np.array([[len(ia) - ea, len(ie) - ee], [ea, ee]])
            if obs.sum(axis=0).all() and obs.sum(axis=1).all():
                w = (sstats(c).chi2_contingency(obs, correction=False))[:2]
                c.cover("test")
                c.prove(c.And([c.near(a, b) for a, b in zip(st, w)]),
                        "the test compares the records of the bin")
        else:
            st2 = []
            for col, ix, y in (("A", ia, ya), ("E", ie, ye)):
                if not ix:
                    continue
                v = [y[i] for i in ix]
                mu = c.div(tsum(v), len(ix))
                c.prove(c.near(dt["Mean " + col].values[k], mu),
                        "means are those of the records of the bin")
                sd = arr(c, v).std()
                c.prove(c.near(dt["Std " + col].values[k], sd),
                        "deviations are those of the records of the bin")
                if len(ix) == 1:
                    c.prove(c.near(dt["Std " + col].values[k], 0),
                            "a single record has no deviation")
                    c.cover("test")
                st2 += [dt["Mean " + col].values[k],
                        dt["Std " + col].values[k], len(ix)]
            if len(st2) == 6 and (c.symbolic or math.isfinite(st[0])):
                w = sstats(c).ttest_ind_from_stats(*st2, False)
                c.prove(c.And([c.near(a, b) for a, b in zip(st, w)]),
                        "the test compares the records of the bin")
    ta = m._df_target_analysis
    if target == "binary":
        w = {"Actual": [na, sum(ya), na - sum(ya)],
             "Expected": [ne, sum(ye), ne - sum(ye)]}
        for k, v in w.items():
            c.prove(c.And([c.eq(a, b) for a, b in zip(ta[k].values, v)]),
                    "the target table counts events and non-events")
            c.prove(c.And([c.near(ta[k + " (%)"].values[j], v[j] / v[0])
                           for j in (1, 2)]),
                    "the target table reports the shares")
    else:
        for k, v in (("Actual", ya), ("Expected", ye)):
            c.prove(c.near(ta[k].values[0], c.div(tsum(v), len(v))),
                    "the target table reports the mean")
            s = ordered(v)
            n = len(s)
            med = s[n // 2] if n % 2 else c.div(
                add(s[n // 2 - 1], s[n // 2]), 2)
            c.prove(c.near(ta[k].values[3], med),
                    "the target table reports the median")
            c.prove(c.near(ta[k].values[1], arr(c, v).std()),
                    "the target table reports the deviation")
            for r, q in ((2, 0.25), (4, 0.75)):
                h = q * (n - 1)
                lo = min(int(h), n - 2)
                c.prove(c.near(ta[k].values[r], add(s[lo], mul(
                    h - lo, sub(s[lo + 1], s[lo])))),
                    "the target table reports the quartiles")
    pf = m._df_performance
    if c.symbolic:
        names = ["m"] + (["Gini"] if target == "binary" else [])
        c.prove(list(pf["Metric"]) == names, "all metrics are reported")
        for col, y, p, q in (("Actual", ya, pr, pp[:na]),
                             ("Expected", ye, pe, pp[:ne])):
            w = [c.uf("metric", *(list(y) + p))]
            if target == "binary":
                w.append(c.uf("gini", *(list(y) + q)))
            c.prove(c.And([c.near(a, b) for a, b in zip(pf[col].values, w)]),
                    "metrics compare the target of a sample with its "
                    "predictions")
    for a, e, d in zip(pf["Actual"].values, pf["Expected"].values,
                       pf["Diff A - E"].values):
        if c.symbolic or math.isfinite(d):
            c.prove(c.near(d, sub(a, e)), "differences of metrics")


def tsum(l):
    t = 0
    for e in l:
        t = add(t, e)
    return t


def body_variables(c, na, ne, nvar=1, rows=NROWS):
    names = ["x%d" % i for i in range(nvar)]
    act = {"score": [1.0] * na, "pred": [i % 2 for i in range(na)],
           "proba": [0.5] * na}
    exp = {"score": [1.0] * ne, "pred": [i % 2 for i in range(ne)],
           "proba": [0.5] * ne}
    for v in names:
        for d, n, s in ((act, na, "a"), (exp, ne, "e")):
            d[v] = [c.choice("{}{}_{}".format(s, i, v), list(range(rows)))
                    for i in range(n)]
    ya = [i % 2 for i in range(na)]
    ye = [i % 2 for i in range(ne)]
    m = monitor(c, "binary", act, exp, ya, ye, [], names)
    c.cover("table")
    for j, v in enumerate(names):
        df = m.psi_variable_table(name=v, style="detailed")
        bins = list(df["Bin"])
        c.prove(bins == [v + "_" + str(i) for i in range(len(bins))],
                "the table lists the bins of the variable in order")
        c.prove(len(bins) > max(act[v] + exp[v]),
                "no bin with records is left out")
        tot = 0.0
        for i in range(len(bins)):
            ca, ce = act[v].count(i), exp[v].count(i)
            c.prove(c.And([c.eq(df["Count A"].values[i], ca),
                           c.eq(df["Count E"].values[i], ce),
                           c.near(df["Count A (%)"].values[i], ca / na),
                           c.near(df["Count E (%)"].values[i], ce / ne)]),
                    "records are counted in the bin of the variable")
            t = psi_term(ca / na, ce / ne)
            tot += t
            c.prove(close(c, df["PSI"].values[i], t),
                    "the PSI of a bin is that of its shares")
        s = m.psi_variable_table(name=v)
        c.prove(close(c, s[v], tot),
                "the PSI of a variable adds up its bins")
        al = m.psi_variable_table()
        c.prove(close(c, al[al["Variable"] == v]["PSI"].values[0], tot),
                "the PSI of a variable adds up its bins")


REAL = {"plain": None, "list": [-9, -8], "dict": {"a": -9, "b": -8}}
CODES = [-9, -8]
_FIT = {}


def real_variable(target, kind):
    """a fitted variable with bins (-inf,1), [1,2), [2,inf)"""
    if (target, kind) not in _FIT:
        x = np.array([0.5, 1.5, 2.5, 0.5, 1.5, 2.5] * 4 + [-9, -8, np.nan] * 2)
        y = np.array([0, 1, 0, 1, 0, 1] * 4 + [0, 1, 0, 1, 0, 1])
        if kind == "plain":
            x, y = x[:-6], y[:-6]
        cls = OptimalBinning if target == "binary" else \
            ContinuousOptimalBinning
        ob = cls(name="x0", user_splits=[1.0, 2.0], special_codes=REAL[kind],
                 user_splits_fixed=[True, True], monotonic_trend=None)
        ob.fit(x, y if target == "binary" else y + x * 0.25 * (y > 5))
        assert list(ob.splits) == [1.0, 2.0]
        rows = [str(b) for b in ob.binning_table.build()["Bin"][:-1]]
        _FIT[target, kind] = ob, rows
    return _FIT[target, kind]


def body_real(c, na, ne, target="binary", kind="list"):
    """records with special codes or missing values have bins of their own"""
    spec = CODES if kind != "plain" else []
    cols, place = {}, {}
    for s, n in (("a", na), ("e", ne)):
        cols[s], place[s] = ([0.5], [0]) if s == "a" else ([1.5], [1])
        for i in range(1, n):
            k = int(c.choice("kind %s%d" % (s, i), list(
                range(2 + len(spec)))))
            if k == 0:
                v = c.real("%s%d" % (s, i), 0, 3)
                j = sum([bool(v >= t) for t in (1.0, 2.0)])
            elif k == 1:
                v, j = np.nan, 3 + (2 if kind == "dict" else 1)
                c.cover("missing")
            else:
                v = float(spec[k - 2])
                j = 3 + (k - 2 if kind == "dict" else 0)
                c.cover("special")
            cols[s].append(v)
            place[s].append(j)
    d = {s: {"score": [1.0] * n, "pred": [i % 2 for i in range(n)],
             "proba": [0.5] * n, "x0": cols[s]}
         for s, n in (("a", na), ("e", ne))}
    ob, rows = real_variable(target, kind)
    m = monitor(c, "binary", d["a"], d["e"], [i % 2 for i in range(na)],
                [i % 2 for i in range(ne)], [], ["x0"], optb=(ob, rows))
    df = m.psi_variable_table(name="x0", style="detailed")
    bins = [str(b) for b in df["Bin"]]
    c.cover("table")
    c.prove(bins == rows[:len(bins)], "the table lists the bins in order")
    c.prove(len(bins) > max(place["a"] + place["e"]),
            "no bin with records is left out")
    for i in range(len(bins)):
        c.prove(c.And([c.eq(df["Count A"].values[i], place["a"].count(i)),
                       c.eq(df["Count E"].values[i], place["e"].count(i))]),
                "records are counted in the bin of the table")
        c.prove(close(c, df["PSI"].values[i], psi_term(
            place["a"].count(i) / na, place["e"].count(i) / ne)),
            "the PSI of a bin is that of its shares")


def harnesses(tier):
    for t in ("binary", "continuous"):
        for k in REAL:
            real_variable(t, k)
    H = []

    def mk(name, body, bounds, cover, tier="quick", **p):
        H.append(Harness(name, lambda c: body(c, **p), bounds, expect=cover,
                         tier=tier, timeout=700))
    b = "every score in [0,30] and label of {} actual and {} expected records"
    mk("system binary 2+2", body_system, b.format(2, 2), ("table", "test"),
       na=2, ne=2, target="binary")
    mk("system binary 3+2", body_system, b.format(3, 2), ("table", "test"),
       na=3, ne=2, target="binary", labels=False)
    mk("system binary 2+3", body_system, b.format(2, 3), ("table", "test"),
       na=2, ne=3, target="binary", labels=False)
    mk("system continuous 2+2", body_system, b.format(2, 2),
       ("table", "test"), na=2, ne=2, target="continuous")
    mk("system binary 3+3", body_system, b.format(3, 3), ("table", "test"),
       "thorough", na=3, ne=3, target="binary")
    mk("system continuous 3+2", body_system, b.format(3, 2),
       ("table", "test"), "thorough", na=3, ne=2, target="continuous", sort=True)
    v = "every bin of {} actual and {} expected records"
    mk("variable 2+2", body_variables, v.format(2, 2), ("table",), na=2, ne=2)
    mk("variables 2+2", body_variables, v.format(2, 2), ("table",), na=2,
       ne=2, nvar=2, rows=2)
    mk("variable 3+2", body_variables, v.format(3, 2), ("table",),
       "thorough", na=3, ne=2)
    mk("variable 2+3", body_variables, v.format(2, 3), ("table",),
       "thorough", na=2, ne=3)
    for t in ("binary", "continuous"):
        for k in REAL:
            mk("real variable %s %s" % (t, k), body_real,
               "every value, special code or missing value of an actual and "
               "an expected record, next to one given record each", ("table", "missing") + (
                   ("special",) if k != "plain" else ()), na=2, ne=2,
               target=t, kind=k)
    return H
