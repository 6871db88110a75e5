"""C17: selection, fitting and transformation of the variables of a binning
process.  The binning objects are stand-ins with arbitrary quality metrics and
transforms; the process is the real code."""

import warnings

import pandas as pd

from optbinning import (BinningProcess, ContinuousOptimalBinning,
                        MulticlassOptimalBinning, OptimalBinning)
from optbinning.binning import binning_process as BPM

from .lib import *

ASSUMPTIONS = ["binned variables are stand-ins: arbitrary metric values and "
               "arbitrary transforms (a linear function of the special and "
               "missing value per record and metric)",
               "joblib's thread pool is replaced by a serial loop",
               "csv reading and writing of pandas is replaced by data frames"]

METRICS = {"binary": ("iv", "js", "gini", "quality_score"),
           "multiclass": ("js", "quality_score"),
           "continuous": ("woe", "quality_score")}
CLS = {"binary": OptimalBinning, "multiclass": MulticlassOptimalBinning,
       "continuous": ContinuousOptimalBinning}
DEFAULT = {"binary": "woe", "multiclass": "mean_woe", "continuous": "mean"}


def prove(c, label, cond):
    c.prove(cond, label)


class Table:
    def __init__(self, m):
        self.__dict__.update(m)

    def build(self, *a, **k):
        pass

    def analysis(self, *a, **k):
        pass


def make(target, metrics, dtype="numerical", nsplits=2, name="", tr=None):
    C = CLS[target]

    class Stub(C):
        splits = [0.5 * i for i in range(nsplits)]
        status = "OPTIMAL"
        binning_table = None
        dtype = None
        calls = None

        def __init__(self, name):
            self.name = name

        def transform(self, x, metric=DEFAULT[target], metric_special=0,
                      metric_missing=0, show_digits=2, check_input=False):
            return tr(self, x, metric, metric_special, metric_missing,
                      show_digits)

    Stub.__name__ = C.__name__
    o = Stub(name)
    o.binning_table = Table(metrics)
    o.dtype = dtype
    o._is_fitted = True
    return o


def members(support):
    return [bool(s) for s in support]


def check_selection(c, what, sup, vals, crit, target, fixed=()):
    """sup is the set of variables meeting the criteria"""
    n = len(sup)
    cand = [True] * n
    for m in METRICS[target]:
        if m not in crit:
            continue
        info, v = crit[m], [x[m] for x in vals]
        for i in range(n):
            if cand[i] and "min" in info:
                cand[i] = bool(v[i] >= info["min"])
            if cand[i] and "max" in info:
                cand[i] = bool(v[i] <= info["max"])
        if "top" in info and "strategy" in info:
            k = sum(cand)
            top = info["top"]
            top = top if isinstance(top, int) else -int(-(k * top) // 1)
            k = min(k, top)
            hi = info["strategy"] == "highest"
            # the best k candidates (values differ)
            nc = [i for i in range(n) if cand[i]]
            new = [False] * n
            for i in nc:
                better = sum(1 for j in nc if j != i and (
                    bool(v[j] > v[i]) if hi else bool(v[j] < v[i])))
                new[i] = better < k
            cand = new
    c.cover("some" if any(cand) and not all(cand) else "all or none")
    for f in fixed:
        cand[f] = True
    prove(c, "{}: exactly the variables meeting the criteria are "
            "selected".format(what), members(sup) == cand)



def body_select(c, target, nvar, crit, fixed=(), update=False, perm=None):
    names = ["x%d" % i for i in range(nvar)]
    ms = sorted(set(crit) | {METRICS[target][0]})
    vals = []
    for i in range(nvar):
        d = {m: 0.25 for m in METRICS[target]}
        for m in ms:
            d[m] = c.real("{}_{}".format(m, i), 0, 1)
        vals.append(d)
    for m in ms:          # ranking is only defined without ties
        if "top" in crit.get(m, {}):
            for i in range(nvar):
                for j in range(i):
                    c.assume(c.Not(c.eq(vals[i][m], vals[j][m])))
    sc = {}
    for m, info in crit.items():
        sc[m] = dict(info)
        for b in ("min", "max"):
            if b in info:
                sc[m][b] = c.real(b + "_" + m, 0, 1)
    bp = BinningProcess(names, selection_criteria=sc or None,
                        fixed_variables=[names[f] for f in fixed] or None)
    d = {n: make(target, v, name=n) for n, v in zip(names, vals)}
    order = [names[p] for p in perm] if perm else names
    bp.fit_from_dict({n: d[n] for n in order})
    check_selection(c, "fit", bp.get_support(), vals, sc, target, fixed)
    if update:
        new = {m: 0.25 for m in METRICS[target]}
        for m in ms:
            new[m] = c.real(m + "_new", 0, 1)
            if "top" in crit.get(m, {}):
                for i in range(nvar):
                    c.assume(c.Not(c.eq(vals[i][m], new[m])))
        vals[1] = new
        bp.update_binned_variable("x1", make(target, new, name="x1"))
        check_selection(c, "update", bp.get_support(), vals, sc, target,
                        fixed)
    sup = members(bp.get_support())
    prove(c, "indices are those of the support",
            [int(i) for i in bp.get_support(indices=True)]
            == [i for i in range(nvar) if sup[i]])
    prove(c, "names are those of the support",
            [str(i) for i in bp.get_support(names=True)]
            == [names[i] for i in range(nvar) if sup[i]])
    s = bp.summary()
    prove(c, "summary lists every variable with its selection",
            list(s["name"]) == names and members(s["selected"]) == sup)
    for i in range(nvar):
        for m in ms:
            prove(c, "summary reports the metrics of every variable",
                    c.eq(s[m].values[i], vals[i][m]))


class Trans:
    """arbitrary transform of every record of every variable"""

    def __init__(self, c, target):
        self.c, self.target, self.base = c, target, {}

    def value(self, name, key, metric, ms, mm, digits):
        k = (name, key, metric)
        if metric == "bins":
            return "{}|{}|{}".format(name, key, digits)
        if k not in self.base:
            self.base[k] = self.c.real("t_{}_{}_{}".format(*k), -50, 50) \
                if metric != "indices" else \
                self.c.int("i_{}_{}".format(name, key), 0, 9)
        b = self.base[k]
        if metric == "indices":
            return b
        j = int(name[1:]) + 1
        return add(b, add(mul(j, ms), mul(7 * j, mm)))

    def __call__(self, o, x, metric, ms, mm, digits):
        x = np.asarray(x)
        out = np.empty(len(x), dtype=object)
        for r in range(len(x)):
            out[r] = self.value(o.name, x[r], metric, ms, mm, digits)
        if metric == "bins" or self.c.symbolic:
            return out
        return out.astype(int if metric == "indices" else float)


def key(name, r):
    return 10 * int(name[1:]) + r


def data(names, n):
    return pd.DataFrame({m: [key(m, r) for r in range(n)] for m in names},
                        index=["r%d" % r for r in range(n)])


class Pd:
    """stand-in of pandas for reading and writing files"""

    def __init__(self, frame):
        self.frame, self.out, self.headers, self.used = frame, [], [], None

    def read_csv(self, path, engine=None, chunksize=None, usecols=None,
                 **kw):
        self.used = list(usecols)
        f = self.frame[[m for m in self.frame.columns if m in self.used]]
        return [f.iloc[i:i + chunksize]
                for i in range(0, len(f), chunksize)]

    def DataFrame(self, data, columns=None):
        me = self

        class F:
            def to_csv(self, path, mode, index, header):
                me.out.append((np.asarray(data), list(columns), mode, index))
                me.headers.append(header)
        return F()


def body_transform(c, target, nvar, metric, params, how, fixed=None,
                   update=False):
    names = ["x%d" % i for i in range(nvar)]
    tr = Trans(c, target)
    ms, mm = c.real("ms", -5, 5), c.real("mm", -5, 5)
    tp = {}
    for i, p in params.items():
        tp["x%d" % i] = {k: (c.real("{}_{}".format(k, i), -5, 5)
                             if v is None else v) for k, v in p.items()}
    sel = list(range(nvar))
    kw = {}
    q = [{m: 0.25 for m in METRICS[target]} for _ in names]
    if fixed is not None:        # select a subset
        first = METRICS[target][0]
        kw["selection_criteria"] = {first: {"min": 0.5}}
        for i in fixed:
            q[i][first] = 0.75
        sel = list(fixed)
    bp = BinningProcess(names, binning_transform_params=tp or None, **kw)
    bp.fit_from_dict({m: make(target, q[i], name=m, tr=tr)
                      for i, m in enumerate(names)})
    if update:
        def tr2(o, x, *a):
            return [add(v, 100) for v in tr(o, x, *a)]
        bp.update_binned_variable("x0", make(target, q[0], name="x0",
                                             tr=tr2))
    nrec = 2
    X = data(names, nrec)
    kw = dict(metric_special=ms, metric_missing=mm, show_digits=3)
    if how == "frame":
        out = bp.transform(X, metric, **kw)
    elif how == "shuffled":
        X2 = X[names[::-1]].copy()
        X2["other"] = 5
        out = bp.transform(X2, metric, **kw)
    elif how == "array":
        out = bp.transform(X.values, metric, **kw)
    else:
        pdx = Pd(X)
        old = BPM.pd
        BPM.pd = pdx
        try:
            bp.transform_disk("./in.csv", "./out.csv", 1, metric, **kw)
        finally:
            BPM.pd = old
        prove(c, "one block of rows per chunk is written",
                len(pdx.out) == nrec and pdx.headers == [True] + [False] * (
                    nrec - 1) and all(o[2] == "a" and o[3] is False
                                      for o in pdx.out))
        out = np.concatenate([o[0] for o in pdx.out], axis=0)
        prove(c, "written columns are the selected variables",
                pdx.out[0][1] == [names[i] for i in sel])
    if how in ("frame", "shuffled"):
        prove(c, "columns are the selected variables and rows are kept",
                list(out.columns) == [names[i] for i in sel]
                and list(out.index) == list(X.index))
        out = out.values
    prove(c, "one column per selected variable, one row per record",
            out.shape == (nrec, len(sel)))
    c.cover("transformed")
    for j, i in enumerate(sel):
        p = tp.get(names[i], {})
        m = p.get("metric", metric)
        m = DEFAULT[target] if m is None else m
        for r in range(nrec):
            want = tr.value(names[i], key(names[i], r), m,
                            p.get("metric_special", ms),
                            p.get("metric_missing", mm), 3)
            if update and i == 0:
                want = add(want, 100)
            got = out[r, j]
            prove(c, "a variable is transformed by its own binning with its "
                    "own parameters",
                    got == want if isinstance(want, str)
                    else c.near(got, want))


FLOATS = {"min_prebin_size": (0.01, 0.5), "min_bin_size": (0.01, 0.4),
          "max_bin_size": (0.4, 1), "max_pvalue": (0.01, 1)}
INTS = {"max_n_prebins": (2, 30), "min_n_bins": (1, 3), "max_n_bins": (3, 9),
        "split_digits": (0, 8)}


TEMPLATES = {}


def templates():
    """the state of objects fitted to some data"""
    y = {"binary": np.array([0, 1, 0, 0, 0, 1, 1, 1]),
         "multiclass": np.array([0, 1, 0, 0, 2, 1, 2, 1]),
         "continuous": np.array([0, 1, .5, 3, 2, 1.5, 2, 1])}
    warnings.simplefilter("ignore")
    for t, C in CLS.items():
        for d in ("numerical", "categorical"):
            if t == "multiclass":
                if d == "categorical":
                    continue
                o = C()
            else:
                o = C(dtype=d)
            o.fit(np.array(["a", "b"] * 4, dtype=object)
                  if d == "categorical" else np.arange(8.0), y[t])
            keep = o.get_params()
            TEMPLATES[t, d] = {k: v for k, v in o.__dict__.items()
                               if k not in keep}


def body_fit(c, target, how, params):
    """every variable is fitted with the parameters of the process unless
    overridden"""
    names = ["x0", "x1", "x2"]
    kw = {}
    for k, (a, b) in FLOATS.items():
        kw[k] = c.real(k, a, b)
    for k, (a, b) in INTS.items():
        kw[k] = c.int(k, a, b)
    kw["max_pvalue_policy"] = "all"
    special = [-9]
    kw["special_codes"] = special
    bfp = {}
    for i, p in params.items():
        bfp["x%d" % i] = {}
        for k, v in p.items():
            if v is None:
                a, b = {**FLOATS, **INTS}[k]
                v = (c.int if k in INTS else c.real)(
                    "{}_{}".format(k, i), a, b)
            bfp["x%d" % i][k] = v
    cats = ["x2"] if target != "multiclass" else None
    bp = BinningProcess(names, categorical_variables=cats,
                        binning_fit_params=bfp,
                        n_jobs=2 if how == "jobs" or how == "jobs array"
                        else 1, **kw)
    n = 3
    X = data(names, n)
    y = {"binary": [0, 1, 1], "multiclass": [0, 1, 2],
         "continuous": [0.5, 1.25, 3.0]}[target]
    y = np.array(y)
    sw = np.array([1, 2, 3]) if target == "binary" and how != "disk" else None
    log = {}
    C = CLS[target]
    saved = C.fit

    def fit(self, x, yy, sample_weight=None, check_input=False):
        assert self.name not in log, "fitted twice"
        log[self.name] = (self.get_params(), list(np.asarray(x)), yy,
                          sample_weight)
        for k, v in TEMPLATES[target, getattr(
                self, "dtype", "numerical")].items():
            setattr(self, k, v)
        self._binning_table = Table({m: 0.25 for m in METRICS[target]})
        return self

    par = BPM.Parallel
    rc = BPM._read_column
    C.fit = fit
    BPM.Parallel = lambda **k: lambda gen: [f(*a, **kk) for f, a, kk in gen]
    BPM._read_column = lambda path, ext, col, **k: (
        y if col == "target" else X[col].values)
    try:
        if how == "disk":
            bp.fit_disk("./dir.x/in.csv", "target")
        elif how in ("array", "jobs array"):
            bp.fit(X.values, y, sw)
        else:
            bp.fit(X[names[::-1]], y, sw)
    finally:
        C.fit = saved
        BPM.Parallel = par
        BPM._read_column = rc
    prove(c, "every variable is fitted", sorted(log) == names)
    c.cover("fitted")
    default = C().get_params()
    for i, m in enumerate(names):
        got, x, yy, w = log[m]
        want = dict(default)
        want.update({k: v for k, v in kw.items() if k in default})
        want["name"] = m
        if "dtype" in default:
            want["dtype"] = "categorical" if cats and m in cats \
                else "numerical"
        want.update(bfp.get(m, {}))
        prove(c, "a variable is fitted on its own data",
                x == [key(m, r) for r in range(n)]
                and list(yy) == list(y) and (w is sw or (
                    w is not None and list(w) == list(sw))))
        prove(c, "the parameters are those of its class",
                sorted(got) == sorted(want))
        for k in want:
            a, b = got[k], want[k]
            same = c.eq(a, b) if k in FLOATS or k in INTS else (
                a is b or a == b)
            prove(c, "a variable is fitted with the parameters of the process "
                    "unless overridden for it", same)
        prove(c, "the fitted object is kept under its name",
                bp.get_binned_variable(m).name == m)


def body_refit(c, target, how, first, crit):
    """a process fitted again with other variables, order or criteria"""
    all_names = ["x0", "x1", "x2"]
    second = c.choice("variables", [["x0", "x1", "x2"], ["x1", "x0"],
                                    ["x2"], ["x2", "x1", "x0"]])
    vals = {m: {k: 0.25 for k in METRICS[target]} for m in all_names}
    ms = sorted(crit)
    for m in all_names:
        for k in ms:
            vals[m][k] = c.real("{}_{}".format(k, m), 0, 1)
    for k in ms:
        for i in range(3):
            for j in range(i):
                c.assume(c.Not(c.eq(vals[all_names[i]][k],
                                    vals[all_names[j]][k])))
    rc, fv = BPM._read_column, BPM._fit_variable

    def stub(x, y, name, *a, **k):
        return "numerical", make(target, vals[name], name=name)
    bp = BinningProcess(list(first), selection_criteria={
        k: {"strategy": "lowest", "top": 1} for k in ms})
    y = {"binary": [0, 1, 1], "multiclass": [0, 1, 2],
         "continuous": [0.5, 1.25, 3.0]}[target]
    y = np.array(y)

    def fit(names):
        X = data(names, 3)
        if how == "dict":
            bp.fit_from_dict({m: make(target, vals[m], name=m)
                              for m in names})
        elif how == "disk":
            BPM._read_column = lambda path, ext, col, **k: (
                y if col == "target" else X[col].values)
            bp.fit_disk("./in.csv", "target")
        else:
            bp.fit(X.values if how == "array" else X, y)
    BPM._fit_variable = stub
    try:
        fit(list(first))
        bp.set_params(variable_names=second, selection_criteria=crit)
        fit(second)
    finally:
        BPM._read_column, BPM._fit_variable = rc, fv
    c.cover("refitted")
    check_selection(c, "refit", bp.get_support(), [vals[m] for m in second],
                    crit, target)
    sup = members(bp.get_support())
    s = bp.summary()
    prove(c, "summary lists the variables of the last fit with their "
          "selection", list(s["name"]) == second
          and members(s["selected"]) == sup)
    for i, m in enumerate(second):
        for k in ms:
            prove(c, "summary reports the metrics of the last fit",
                  c.eq(s[k].values[i], vals[m][k]))
    prove(c, "names are those of the support",
          [str(i) for i in bp.get_support(names=True)]
          == [m for m, u in zip(second, sup) if u])
    info = printed(c, lambda: bp.information(1))
    nums = [int(w) for line in info.splitlines() if "ariable" in line or
            "selected" in line for w in line.split(":")[-1].split()
            if w.isdigit()]
    prove(c, "information counts the variables of the last fit",
          nums[:1] == [len(second)])


def harnesses(tier):
    H = []
    q = "quick"
    templates()

    def sel(name, target, nvar, crit, tier=q, expect=("some",), **p):
        H.append(Harness(
            "select {} {} {}".format(target, nvar, name),
            lambda c, a=(target, nvar, crit), p=p: body_select(c, *a, **p),
            "{} variables, metric values and thresholds in [0,1], "
            "no ties for rankings".format(nvar), expect=expect, tier=tier,
            timeout=600))
    for t, m in (("binary", "iv"), ("binary", "js"), ("binary", "gini"),
                 ("binary", "quality_score"), ("multiclass", "js"),
                 ("multiclass", "quality_score"), ("continuous", "woe"),
                 ("continuous", "quality_score")):
        sel("min-max " + m, t, 3, {m: {"min": 1, "max": 1}})
        for s in ("highest", "lowest"):
            sel("top2 {} {}".format(s, m), t, 3,
                {m: {"strategy": s, "top": 2}})
    sel("none", "binary", 3, {}, expect=("all or none",))
    for s in ("highest", "lowest"):
        sel("fraction {}".format(s), "binary", 4,
            {"iv": {"strategy": s, "top": 0.4}})
        sel("min top {}".format(s), "binary", 3,
            {"iv": {"min": 1, "strategy": s, "top": 1}})
        sel("max fraction {}".format(s), "continuous", 3,
            {"woe": {"max": 1, "strategy": s, "top": 0.5}})
    sel("two metrics", "binary", 3,
        {"iv": {"min": 1}, "gini": {"strategy": "highest", "top": 1}})
    sel("two rankings", "binary", 3,
        {"js": {"strategy": "lowest", "top": 2},
         "gini": {"strategy": "highest", "top": 1}})
    sel("two metrics", "multiclass", 3,
        {"js": {"max": 1}, "quality_score": {"min": 1}})
    sel("fixed", "binary", 3, {"iv": {"min": 1}}, fixed=(2,))
    sel("fixed top", "continuous", 3,
        {"woe": {"strategy": "highest", "top": 1}}, fixed=(0, 1))
    sel("update", "binary", 3, {"iv": {"min": 1}}, update=True)
    sel("update top", "continuous", 3,
        {"woe": {"strategy": "highest", "top": 1}}, update=True)
    sel("order", "binary", 3, {"iv": {"min": 1}}, perm=(2, 0, 1))
    sel("top2 of 4", "binary", 4,
        {"gini": {"min": 1, "strategy": "highest", "top": 2}},
        tier="thorough")
    sel("fraction of 4", "multiclass", 4,
        {"js": {"min": 1, "max": 1, "strategy": "lowest", "top": 0.6}},
        tier="thorough")

    def tr(name, target, metric, params, how, **p):
        H.append(Harness(
            "transform {} {} {} {}".format(target, metric, name, how),
            lambda c, a=(target, 3, metric, params, how), p=p:
                body_transform(c, *a, **p),
            "3 variables, 2 records, transformed values in [-50,50], "
            "special and missing values in [-5,5]",
            expect=("transformed",), tier=q))
    own = {0: {"metric_special": None, "metric_missing": None}}
    own1 = {1: {"metric_missing": None}}
    for how in ("frame", "array", "shuffled", "disk"):
        for t in ("binary", "continuous", "multiclass"):
            tr("plain", t, None, {}, how)
        tr("own", "binary", None, own, how)
        tr("own1", "continuous", None, own1, how, fixed=(1, 2))
        tr("own metric", "binary", "woe", {0: {"metric": "event_rate"}}, how)
        tr("own metric", "binary", None,
           {1: {"metric": "event_rate", "metric_special": None}}, how)
        tr("own index", "binary", None, {0: {"metric": "indices"}}, how)
        tr("own woe", "binary", "indices", {1: {"metric": "woe"}}, how)
        tr("own mean", "continuous", "indices", {0: {"metric": "mean"}}, how)
        tr("plain", "multiclass", "weighted_mean_woe", {}, how)
        tr("plain", "binary", "indices", {}, how)
        tr("plain", "binary", "bins", {}, how)
        tr("subset", "binary", "event_rate", own, how, fixed=(0, 2))
        tr("subset", "continuous", "mean", own1, how, fixed=(2,))
        tr("update", "binary", None, own, how, update=True)

    for t in CLS:
        for how in ("frame", "array", "jobs", "jobs array", "disk"):
            H.append(Harness(
                "fit {} {}".format(t, how),
                lambda c, a=(t, how, {0: {"min_bin_size": None,
                                          "max_n_prebins": None},
                                      1: {"max_pvalue": None,
                                          "split_digits": None}}):
                    body_fit(c, *a),
                "3 variables, every value of the numeric parameters in their "
                "domain", expect=("fitted",), tier=q))
    for t, m in (("binary", "iv"), ("continuous", "woe"),
                 ("multiclass", "js")):
        for how in ("frame", "array", "disk", "dict"):
            for first in (("x0", "x1"), ("x1", "x2", "x0")):
                H.append(Harness(
                    "refit {} {} {}".format(t, how, len(first)),
                    lambda c, a=(t, how, first, {m: {
                        "strategy": "highest", "top": 1}}): body_refit(c, *a),
                    "{} variables first, then any of 4 lists of variables; "
                    "metric values in [0,1] without ties".format(len(first)),
                    expect=("refitted",)))
    return H
