"""C21: piecewise transforms."""

import contextlib
import io
import re

import pandas as pd

from optbinning import ContinuousOptimalPWBinning, OptimalPWBinning
from optbinning.binning.piecewise import base as PB
from optbinning.binning.piecewise import binning as PBB
from optbinning.binning.piecewise import binning_statistics as PBS
from optbinning.binning.piecewise import continuous_binning as PBC

from .c19 import using
from .lib import *
from symex import patch

ASSUMPTIONS = [
    "the regression of ropwr (third party) is a stand-in giving arbitrary "
    "coefficients; the estimator of the event rate is a stand-in",
    "splits and clean training records are given; performance metrics of the "
    "clean records are not computed symbolically"]

_C = {}


class Reg:
    """any piecewise polynomial"""

    def __init__(self, **k):
        _C["params"] = k
        self.degree = k["degree"]
        self.status = "optimal"

    def fit(self, x, y, splits, lb=None, ub=None):
        c = _C["c"]
        _C["bounds"] = lb, ub
        n = len(splits) + 1
        rows = [[c.real("c%d_%d" % (i, j), -4, 4)
                 for j in range(self.degree + 1)] for i in range(n)]
        _C["coef"] = rows
        a = np.empty((n, self.degree + 1), dtype=object if c.symbolic
                     else float)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                a[i, j] = v
        self.coef_ = arr(c, a) if c.symbolic else a
        return self


class Est:
    def fit(self, x, y):
        return self

    def predict_proba(self, x):
        return np.tile([0.5, 0.5], (len(x), 1))


def woe_of(c, er, n0, n1):
    return core.s_log(mul(c.div(sub(1, er), er), c.div(n1, n0)))


CODES = {None: [], "list": [-9, -8], "dict": {"a": -9, "b": [-8, -7]}}
SPLITS = {0: [], 1: [1.0], 2: [1.0, 2.0]}


def rows_of(special, v):
    """row of a special code after the bins, None if it is no code"""
    codes = CODES[special]
    if isinstance(codes, dict):
        for i, s in enumerate(codes.values()):
            if v in (s if isinstance(s, list) else [s]):
                return i
        return None
    return 0 if v in codes else None


def train(c, target, degree, special, ns, extra, lb, ub):
    """fit on given clean records and any special and missing records"""
    x = [0.25, 0.5, 0.75, 1.25, 1.5, 1.75, 2.25, 2.5, 2.75]
    y = [0, 1, 0, 0, 1, 1, 1, 0, 1] if target == "binary" else \
        [0.5, 1.5, -1.0, 2.0, 2.5, 3.0, 0.0, 5.0, 1.0]
    codes = [v for v in (-9, -8, -7) if rows_of(special, v) is not None]
    nsp = len(CODES["dict"]) if special == "dict" else 1
    stat = [[] for _ in range(nsp + 1)]
    xx, yy = list(x), list(y)
    for i in range(extra):
        k = int(c.choice("training record %d" % i,
                         list(range(len(codes) + 1))))
        t = int(c.choice("class %d" % i, [0, 1])) if target == "binary" \
            else [2.5, -1.0][i % 2]
        xx.append(np.nan if k == 0 else codes[k - 1])
        yy.append(t)
        stat[nsp if k == 0 else rows_of(special, codes[k - 1])].append(t)
    sp = SPLITS[ns]
    cls = OptimalPWBinning if target == "binary" else \
        ContinuousOptimalPWBinning
    kw = dict(estimator=Est()) if target == "binary" else {}
    ob = cls(name="x", degree=degree, user_splits=sp or None,
             user_splits_fixed=[True] * ns if ns else None,
             special_codes=CODES[special] or None, monotonic_trend=None, **kw)
    _C.clear()
    _C.update(c=c)
    old = PB.RobustPWRegression
    PB.RobustPWRegression = Reg
    repl = dict(binary_metrics=lambda *a: dict.fromkeys(
        ["Gini index", "IV (Jeffrey)", "JS (Jensen-Shannon)", "Hellinger",
         "Triangular", "KS", "Avg precision", "Brier score"], 0.5)) \
        if target == "binary" else dict(continuous_metrics=lambda *a: {})
    try:
        with using(c, PBB if target == "binary" else PBC, **repl), \
                contextlib.ExitStack() as st, np.errstate(all="ignore"):
            if not ns:
                st.enter_context(patch.prebin([]))
            ob.fit(np.array(xx, dtype=float), np.array(yy), lb=lb, ub=ub)
    finally:
        PB.RobustPWRegression = old
    c.prove(list(ob.splits) == sp, "splits")
    c.prove(_C["bounds"] == (lb, ub), "bounds are given to the regression")
    return ob, stat, nsp, x, y


def clip(c, v, lb, ub):
    if lb is not None and bool(core.s_lt(v, lb)):
        return lb
    if ub is not None and bool(core.s_gt(v, ub)):
        return ub
    return v


def value_of_row(c, target, metric, st, n0, n1):
    """empirical value of special or missing training records"""
    if target == "continuous":
        return sum(st) / len(st) if st else 0
    if 0 in st and 1 in st:
        er = sum(st) / len(st)
        return er if metric == "event_rate" else \
            math.log((1 - er) / er * n1 / n0)
    return 0


def body_transform(c, target="binary", degree=1, special=None, ns=1, extra=0,
                   metric="event_rate", ms=0, mm=0, lb=None, ub=None,
                   n=1, kinds=None):
    ob, stat, nsp, x, y = train(c, target, degree, special, ns, extra,
                                None, None)
    ally = y + [t for s in stat for t in s]
    n1 = ally.count(1)
    n0 = ally.count(0)
    codes = [v for v in (-9, -8, -7) if rows_of(special, v) is not None]
    vals, want = [], []
    coef = _C["coef"]
    kw = dict(metric=metric) if target == "binary" else {}
    for i in range(n):
        k = int(c.choice("kind %d" % i, kinds or
                         list(range(len(codes) + 2))))
        if k == 0:
            v = c.real("x%d" % i, -6.5, 5)
            j = sum([bool(core.s_ge(v, s)) for s in SPLITS[ns]])
            c.cover("segment %d" % j)
            p = coef[j][degree]
            for d in reversed(range(degree)):
                p = add(mul(p, v), coef[j][d])
            p = clip(c, p, lb, ub)
            if metric == "woe":
                c.assume(c.And([core.s_gt(p, 0), core.s_lt(p, 1)]))
                p = woe_of(c, p, n0, n1)
            vals.append(v)
            want.append(p)
        elif k == 1:
            c.cover("missing")
            vals.append(np.nan)
            want.append(mm if mm != "empirical" else value_of_row(
                c, target, metric, stat[-1], n0, n1))
        else:
            c.cover("special")
            vals.append(float(codes[k - 2]))
            want.append(ms if ms != "empirical" else value_of_row(
                c, target, metric, stat[rows_of(special, codes[k - 2])],
                n0, n1))
    with np.errstate(all="ignore"):
        got = lst(ob.transform(arr(c, vals), metric_special=ms,
                               metric_missing=mm, lb=lb, ub=ub, **kw))
    c.prove(len(got) == n, "one value per record")
    for i in range(n):
        g = got[i]
        if isinstance(want[i], (int, float)) and \
                isinstance(g, (int, float)):
            c.prove(math.isfinite(g) and abs(g - want[i]) < 1e-9,
                    "special and missing records get their value")
        else:
            c.prove(c.near(g, want[i]),
                    "a value is given by the segment it lies in")


def body_table(c, target="binary", degree=1, special=None, ns=1, extra=2,
               totals=True):
    ob, stat, nsp, x, y = train(c, target, degree, special, ns, extra,
                                -1.0, 2.0)
    tab = ob.binning_table.build(add_totals=totals)
    c.cover("table")
    seg = [[t for v, t in zip(x, y)
            if sum(v >= s for s in SPLITS[ns]) == i] for i in range(ns + 1)]
    rows = seg + stat
    c.prove(len(tab) == len(rows) + int(totals), "rows of the table")
    names = list(CODES["dict"]) if special == "dict" else ["Special"]
    c.prove([str(b) for b in tab["Bin"].values[ns + 1:ns + 1 + len(stat)]]
            == names + ["Missing"], "names of the rows")
    tot = sum(map(len, rows))
    for i, r in enumerate(rows):
        c.prove(tab["Count"].values[i] == len(r), "counts")
        c.prove(abs(tab["Count (%)"].values[i] - len(r) / tot) < 1e-12,
                "shares")
        if target == "binary":
            c.prove(tab["Event"].values[i] == r.count(1) and
                    tab["Non-event"].values[i] == r.count(0), "counts")
        else:
            c.prove(abs(tab["Sum"].values[i] - sum(r)) < 1e-9, "sums")
            c.prove(tab["Zeros count"].values[i] == r.count(0), "zeros")
            if r:
                c.prove(tab["Min"].values[i] == min(r) and
                        tab["Max"].values[i] == max(r) and
                        abs(tab["Std"].values[i] - np.std(r)) < 1e-9,
                        "statistics of the target")
        for d in range(degree + 1):
            v = tab["c%d" % d].values[i]
            if i <= ns:
                c.prove(c.eq(v, _C["coef"][i][d]),
                        "reported coefficients are those of the regression")
            else:
                w = value_of_row(c, target, "event_rate", r, 1, 1) \
                    if d == 0 else 0
                c.prove(abs(v - w) < 1e-9, "special and missing rows")
    if totals:
        c.prove(tab["Count"].values[-1] == tot and
                tab["Count (%)"].values[-1] == 1, "totals")


def body_analysis(c, target="binary", special=None, ns=2, extra=2):
    """significance tests compare consecutive bins only"""
    ob, stat, nsp, x, y = train(c, target, 1, special, ns, extra, None, None)
    bt = ob.binning_table
    bt.build()
    out = io.StringIO()
    repl = dict(bayesian_probability=lambda o, n: (0.5, 0.5),
                frequentist_pvalue=lambda o, t: (1.0, 0.5)) \
        if target == "binary" else {}
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"), \
            using(c, PBS, **repl):
        bt.analysis(print_output=True)
    tests = out.getvalue().split("Significance tests")[1]
    pairs = [tuple(map(int, m)) for m in
             re.findall(r"^\s+(\d+)\s+(\d+)\s", tests, re.M)]
    c.cover("analysis")
    c.prove(pairs == [(i, i + 1) for i in range(ns)],
            "consecutive bins are tested")
    c.prove(0 <= bt.quality_score <= 1, "quality score")


def harnesses(tier):
    H = []

    def mk(name, body, tier="quick", expect=(), **p):
        H.append(Harness(
            name, lambda c, p=p, b=body: b(c, **p),
            "every value, coefficients in [-4,4], %d splits, degree %d, any "
            "%d special or missing training records" % (
                p.get("ns", 1), p.get("degree", 1), p.get("extra", 0)),
            expect=expect, tier=tier))
    for t in ("binary", "continuous"):
        for ns in (0, 1, 2):
            mk("%s splits=%d" % (t, ns), body_transform, target=t, ns=ns,
               expect=("segment %d" % ns, "missing"), ms=0.25, mm=-0.5)
        for d in (0, 2, 3):
            mk("%s degree=%d" % (t, d), body_transform, target=t, degree=d,
               expect=("segment 0", "segment 1"), kinds=[0])
        for lb, ub in ((0.25, None), (None, 0.75), (-0.5, 1.5)):
            mk("%s bounds %s %s" % (t, lb, ub), body_transform, target=t,
               lb=lb, ub=ub, expect=("segment 0", "segment 1"), kinds=[0])
        for sp in ("list", "dict"):
            for ms, mm in ((0.25, -2), ("empirical", "empirical"),
                           ("empirical", 3), (1.5, "empirical")):
                for m in ("event_rate", "woe"):
                    if t == "binary" or m == "event_rate":
                        mk("%s %s %s %s %s" % (t, sp, ms, mm, m),
                           body_transform, target=t, special=sp, ms=ms,
                           mm=mm, metric=m, expect=("special", "missing"),
                           extra=2, kinds=[1, 2, 3] + [4] * (sp == "dict"),
                           lb=-1.0, ub=2.0)
            mk("%s bounds leave special values %s" % (t, sp), body_transform,
               target=t, special=sp, ms=5, mm=-5, lb=-1.0, ub=1.0, n=2,
               expect=("special", "missing", "segment 0"))
            mk("%s analysis %s" % (t, sp), body_analysis, target=t,
               special=sp, expect=("analysis",))
            mk("%s table %s" % (t, sp), body_table, target=t, special=sp,
               ns=2, expect=("table",))
        mk("%s table" % t, body_table, target=t, ns=1, degree=2, extra=2,
           expect=("table",))
        mk("%s table no totals" % t, body_table, target=t, ns=0, extra=1,
           totals=False, expect=("table",))
        mk("%s two records" % t, body_transform, target=t, ns=2, n=2,
           special="list", ms=1, mm=2, expect=("segment 0", "segment 2"),
           tier="thorough", extra=1)
        mk("%s many training records" % t, body_transform, target=t, ns=1,
           special="dict", ms="empirical", mm="empirical", extra=4,
           expect=("special",), tier="thorough")
    for ns in (1, 2):
        mk("woe splits=%d" % ns, body_transform, metric="woe", ns=ns,
           expect=("segment 0", "segment 1"), kinds=[0], extra=0)
    mk("woe bounds", body_transform, metric="woe", lb=0.125, ub=0.875,
       kinds=[0], expect=("segment 0", "segment 1"))
    return H
