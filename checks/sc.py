"""Scorecards with arbitrary bin values and coefficients: the binning process
and the estimator are stand-ins, the scorecard is the real code."""

import itertools

import pandas as pd
from sklearn.base import BaseEstimator

from optbinning import BinningProcess
from optbinning.scorecard import Scorecard

from .lib import *

TRAIN = {"binary": [0, 1, 1, 0], "continuous": [0.5, 1.0, 2.0, 4.5]}


class Table:
    def __init__(self, v):
        self.v = v

    def build(self, show_digits=2, add_totals=True):
        assert not add_totals
        col = np.empty(len(self.v.vals), dtype=object)
        col[:] = list(self.v.vals)
        if not _CUR["sym"]:
            col = col.astype(float)
        return pd.DataFrame({
            "Bin": list(self.v.bins),
            "WoE" if self.v.target == "binary" else "Mean": col})


class Var:
    """binned variable: values of its bins, special and missing rows"""

    def __init__(self, name, target, vals, nspec, special):
        self.name, self.target, self.vals = name, target, vals
        self.nspec = nspec
        self.special_codes = special
        self.n = len(vals) - nspec - 1
        self.bins = ["b%d" % i for i in range(self.n)] + [
            "s%d" % i for i in range(nspec)] + ["Missing"]
        self.binning_table = Table(self)

    def value(self, i, ms, mm):
        """value of row i as transform gives it"""
        if i == len(self.vals) - 1:
            return self.vals[i] if mm == "empirical" else mm
        if i >= self.n:
            return self.vals[i] if ms == "empirical" else ms
        return self.vals[i]


_CUR = {}


class StubBP(BinningProcess):
    """contract of BinningProcess: transform gives the value, or the index,
    of the bin of every record (that is property C17)"""

    def fit_transform(self, X, y, sample_weight=None, metric=None,
                      metric_special=0, metric_missing=0, show_digits=2,
                      check_input=False):
        _CUR["fit"] = (sample_weight, metric, metric_special, metric_missing)
        self._n_variables = len(_CUR["vars"])
        return self._tr(X, metric_special, metric_missing)

    def get_support(self, indices=False, names=False):
        return np.array([v.name for v in _CUR["vars"]])

    def get_binned_variable(self, name):
        return [v for v in _CUR["vars"] if v.name == name][0]

    def _tr(self, X, ms, mm):
        d = {}
        for v in _CUR["vars"]:
            col = np.empty(len(X), dtype=object)
            for r, i in enumerate(X[v.name]):
                col[r] = v.value(int(i), ms, mm)
            if not _CUR["sym"]:
                col = col.astype(float)
            d[v.name] = col
        return pd.DataFrame(d)

    def transform(self, X, metric=None, metric_special=0, metric_missing=0,
                  show_digits=2, check_input=False):
        if metric == "indices":
            return pd.DataFrame({v.name: X[v.name].values.astype(int)
                                 for v in _CUR["vars"]})
        assert metric is None
        return self._tr(X, metric_special, metric_missing)


class StubEst(BaseEstimator):
    """linear model with arbitrary coefficients"""

    def fit(self, X, y, sample_weight=None):
        coefs = np.empty((1, len(_CUR["coef"])), dtype=object)
        coefs[0, :] = _CUR["coef"]
        self.coef_ = coefs
        if _CUR["intercept"] is not None:
            self.intercept_ = _CUR["intercept"]
        _CUR["fitted_on"] = (X, y, sample_weight)
        return self

    def _lin(self, X):
        t = np.empty(len(X), dtype=object)
        for r in range(len(X)):
            a = _CUR["intercept"] if _CUR["intercept"] is not None else 0
            for k, v in enumerate(_CUR["vars"]):
                a = add(a, mul(_CUR["coef"][k], X[v.name].values[r]))
            t[r] = a
        return t

    def predict(self, X):
        return self._lin(X)

    def decision_function(self, X):
        return self._lin(X)

    def predict_proba(self, X):
        t = self._lin(X)
        p = np.empty((len(t), 2), dtype=object)
        for r, a in enumerate(t):
            p[r] = [sub(1, a), a]
        return p


def setup(c, nbins, target="binary", special=None, symbolic=("vals", "coef"),
          hi=50, intercept=True, fixed=None):
    """variables with symbolic values, coefficients and intercept"""
    vs, coef = [], []
    k = 0
    for j, n in enumerate(nbins):
        vals = []
        nsp = 1 if not isinstance(special, dict) else len(special)
        for i in range(n + nsp + 1):
            if "vals" in symbolic and (fixed is None or (j, i) not in fixed):
                vals.append(c.real("v%d_%d" % (j, i), -hi, hi))
            else:
                vals.append([-2.5, 1.5, 0.25, 3.0, -1.0, 0.5][k % 6])
            k += 1
        vs.append(Var("x%d" % j, target, vals, nsp, special))
        coef.append(c.real("c%d" % j, -hi, hi) if "coef" in symbolic
                    else [0.75, -1.25, 2.0][j % 3])
    _CUR.clear()
    _CUR.update(vars=vs, sym=c.symbolic, coef=coef, intercept=c.real("b", -hi, hi)
                if intercept is True else intercept)
    return vs


def all_records(vs):
    rows = list(itertools.product(*[range(len(v.vals)) for v in vs]))
    return rows, pd.DataFrame(np.array(rows, dtype=float),
                              columns=[v.name for v in vs])


def fit(c, vs, target="binary", ms=0, mm=0, sw=None, sc=None, **kw):
    names = [v.name for v in vs]
    if sc is None:
        sc = Scorecard(binning_process=StubBP(names), estimator=StubEst(),
                       **kw)
    X = pd.DataFrame({n: [0.0, 1.0, 0.0, 1.0] for n in names})
    return sc.fit(X, np.array(TRAIN[target]), sample_weight=sw,
                  metric_special=ms, metric_missing=mm)


def points(sc, vs):
    """listed points per variable, in the order of the rows of its table"""
    df = sc.table(style="summary")
    out = []
    for v in vs:
        m = (df["Variable"] == v.name).values
        out.append(lst(df["Points"].values[m]))
        assert [str(b) for b in df["Bin"].values[m]] == v.bins
        assert len(out[-1]) == len(v.vals)
    return out


def raw_points(vs, ms, mm):
    """coefficient times value"""
    return [[mul(k, v.value(i, ms, mm)) for i in range(len(v.vals))]
            for k, v in zip(_CUR["coef"], vs)]


def ssum(l):
    t = 0
    for e in l:
        t = add(t, e)
    return t


def intercept():
    return 0 if _CUR["intercept"] is None else _CUR["intercept"]
