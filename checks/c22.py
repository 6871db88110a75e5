"""C22: refinement of candidate splits; refitted objects."""

from optbinning import (ContinuousOptimalBinning, MulticlassOptimalBinning,
                        OptimalBinning)
from optbinning.binning.uncertainty import SBOptimalBinning

from .lib import *

ASSUMPTIONS = [
    "candidate splits are concrete; record values (and weights) symbolic",
    "refits: the prebinning algorithm is a stand-in returning given splits; "
    "the solver returns the same solution for the same model"]


def where(x, splits):
    """bin of a value: right-open intervals"""
    i = 0
    for s in splits:
        if bool(core.s_le(s, x)):
            i += 1
    return i


def members(xs, splits):
    b = [[] for _ in range(len(splits) + 1)]
    for i, x in enumerate(xs):
        b[where(x, splits)].append(i)
    return b


def rounded(cand, digits):
    return [float(np.round(s, digits)) if digits is not None else float(s)
            for s in cand]


def records(c, ys, seeds, n_sym):
    """n_sym symbolic values (ordered within a class: records are
    interchangeable) followed by concrete ones"""
    xs = [c.real("x%d" % i, -10, 10) for i in range(n_sym)]
    last = {}
    for i in range(n_sym):
        if ys[i] in last:
            c.assume(xs[last[ys[i]]] <= xs[i])
        last[ys[i]] = i
    return xs + [s for s, _ in seeds], list(ys) + [y for _, y in seeds]


def pure(c, target, idx, ys, ws, classes):
    """the prebin with these records is degenerate"""
    if target == "continuous":
        return not idx or not bool(core.s_gt(c.sum([ws[i] for i in idx]), 0))
    for k in classes:
        a = c.sum([ws[i] for i in idx if ys[i] == k])
        b = c.sum([ws[i] for i in idx if ys[i] != k])
        if not bool(core.s_gt(a, 0)) or not bool(core.s_gt(b, 0)):
            return True
    return False


CLS = {"binary": OptimalBinning, "continuous": ContinuousOptimalBinning,
       "multiclass": MulticlassOptimalBinning, "scenario": SBOptimalBinning}


def body_refine(c, target, cand, ys, seeds=(), digits=None, fixed=None,
                weights=False, how="user", **params):
    n = len(ys)
    classes = sorted(set(list(ys) + [y for _, y in seeds]))
    xs, yy = records(c, ys, seeds, n)
    ws = [1] * len(xs)
    if weights:
        ws = [c.int("w%d" % i, 0, 5) for i in range(n)] + [1] * len(seeds)
    kw = dict(params, monotonic_trend=None, split_digits=digits)
    if how == "user":
        kw["user_splits"] = list(cand)
        if fixed is not None:
            kw["user_splits_fixed"] = list(fixed)
    sp0 = rounded(cand, digits)
    ob = CLS[target](**kw)
    scen = None
    if target == "scenario":
        # a second scenario in which no prebin is degenerate
        mids = [cand[0] - 1] + [(a + b) / 2 for a, b in
                                zip(cand, cand[1:])] + [cand[-1] + 1]
        scen = [m for m in mids for _ in (0, 1)], [0, 1] * len(mids)

    def fit():
        with patch.prebin(cand):
            if target == "scenario":
                ob.fit([arr(c, xs), arr(c, scen[0])],
                       [np.array(yy), np.array(scen[1])])
            elif weights:
                ob.fit(arr(c, xs), np.array(yy), sample_weight=arr(c, ws))
            else:
                ob.fit(arr(c, xs), np.array(yy))
    lazy = params.get("divergence") in ("hellinger", "triangular")
    bad = [pure(c, target, b, yy, ws, classes) for b in members(xs, sp0)]
    with patch.cut_metrics(c):
        try:
            fit()
        except ValueError as e:
            c.cover("rejected")
            c.prove("fixed" in str(e).lower() and fixed is not None and
                    any(fixed) and any(bad),
                    "only fixed splits of degenerate prebins are rejected")
            return
        sp = [float(s) for s in lst(ob.splits)]
        c.cover("bins=%d" % (len(sp) + 1))
        c.assume(c.symbolic or ob.status in ("OPTIMAL", "FEASIBLE"))
        c.prove(all(any(abs(s - t) < 1e-12 for t in sp0) for s in sp),
                "splits are among the rounded candidates")
        c.prove(all(a < b for a, b in zip(sp, sp[1:])),
                "splits are strictly increasing")
        mem = members(xs, sp)
        if len(sp):
            c.prove(not any(pure(c, target, b, yy, ws, classes)
                            for b in mem), "no degenerate bin remains")
        if fixed is not None:
            c.prove(all(any(abs(s - t) < 1e-12 for s in sp)
                        for t, f in zip(sp0, fixed) if f),
                    "fixed splits are kept")
            if all(fixed) and not lazy:
                c.prove(not any(bad),
                        "fixed splits of degenerate prebins are rejected")
        df = ob.binning_table.build(add_totals=False)
        got = lst(df["Count"])
        exp = [c.sum([ws[i] for i in b]) for b in mem]
        if scen:
            # scenario tables are averages: the totals are checked below
            exp = None
        if exp is not None:
            for a, b in zip(got, exp):
                c.prove(c.eq(a, b), "records of a bin")
            if target == "binary":
                for a, b in zip(lst(df["Event"]), mem):
                    c.prove(c.eq(a, c.sum([ws[i] for i in b if yy[i] == 1])),
                            "events of a bin")
            c.prove(c.eq(c.sum(got), c.sum(ws)), "no record is lost")
        else:
            for k, (X, Y) in enumerate(((xs, yy), scen)):
                t = ob.binning_table_scenario(k).build(add_totals=False)
                for a, b in zip(lst(t["Count"]), members(X, sp)):
                    c.prove(c.eq(a, len(b)), "records of a scenario bin")


# ---------------------------------------------------------------- refits
# configuration of a fit: (parameters, prebinning splits, data)
def clean_info(text):
    """reported information without timings and search statistics"""
    skip = ("time", "%", " sec", "object", "number of b", "number of c")
    return [line for line in text.splitlines()
            if not any(k in line.lower() for k in skip)]


DATA = {
    "plain": ([0.5, 0.6, 1.5, 1.6, 2.5, 2.6], [0, 1, 0, 1, 0, 1]),
    "pure": ([0.5, 0.6, 1.5, 1.6, 2.5, 2.6], [0, 1, 1, 1, 0, 1]),
    "gaps": ([0.5, 0.6, 2.5, 2.6], [0, 1, 0, 1]),
    "codes": ([0.5, 0.6, 1.5, 1.6, -9.0, float("nan"), -9.0],
              [0, 1, 0, 1, 1, 0, 0]),
}
BIN_CFG = {
    "default": dict(monotonic_trend=None),
    "fixed": dict(monotonic_trend=None, user_splits=[1.0, 2.0],
                  user_splits_fixed=[True, False]),
    "user": dict(monotonic_trend=None, user_splits=[2.0]),
    "none": dict(monotonic_trend=None, user_splits=[]),
    "codes": dict(monotonic_trend=None, special_codes=[-9.0]),
    "dict": dict(monotonic_trend=None, special_codes={"s": [-9.0]}),
    "limits": dict(monotonic_trend="ascending", min_n_bins=1, max_n_bins=2,
                   min_bin_size=0.1),
    "one": dict(monotonic_trend="auto", max_n_bins=1),
}
EXTRA = {
    "binary": {"hellinger": dict(monotonic_trend=None,
                                 divergence="hellinger"),
               "pvalue": dict(monotonic_trend=None, max_pvalue=0.9)},
    "continuous": {"pvalue": dict(monotonic_trend=None, max_pvalue=0.9)},
    "multiclass": {}, "scenario": {},
}


def cfgs(target):
    r = {k: dict(v) for k, v in BIN_CFG.items()}
    if target == "multiclass":
        for v in r.values():
            if isinstance(v["monotonic_trend"], str):
                v["monotonic_trend"] = "auto"
            else:
                v["monotonic_trend"] = [None] * 2
        r["limits"]["monotonic_trend"] = ["ascending", "descending"]
    if target == "scenario":
        r.pop("dict")
        r["one"]["monotonic_trend"] = None
    r.update(EXTRA[target])
    return r


def snapshot(c, ob, target, X):
    """everything a user sees of a fitted object"""
    out = {"status": ob.status, "splits": lst(ob.splits),
           "info": clean_info(printed(c, lambda: ob.information(2)))}
    kw = {}
    df = ob.binning_table.build(**kw)
    out["bins"] = [str(b) for b in lst(df["Bin"])] if "Bin" in df else []
    for col in df.columns:
        if col != "Bin":
            out["table " + str(col)] = lst(df[col])
    if target == "scenario":
        for k in range(2):
            t = ob.binning_table_scenario(k).build()
            out["count %d" % k] = lst(t["Count"])
    ms = "empirical"
    out["transform"] = lst(ob.transform(arr(c, X), metric="indices",
                                        metric_special=ms,
                                        metric_missing=ms))
    return out


def agree(c, u, v):
    if isnan(u) or isnan(v) or u is None or v is None:
        return (isnan(u) or u is None) and (isnan(v) or v is None)
    return c.same(u, v)


def same_snap(c, a, b):
    c.prove(set(a) == set(b), "same results after a refit")
    for k in a:
        if k in ("status", "info", "bins"):
            c.prove(a[k] == b[k], "%s is that of a new object" % k)
            continue
        c.prove(len(a[k]) == len(b[k]), "size of %s" % k)
        c.prove(c.And([agree(c, u, v) for u, v in zip(a[k], b[k])]),
                "%s is that of a new object" % k)


def body_refit(c, target, second, data2):
    """fit with one configuration, then with another: as a new object"""
    cf = cfgs(target)
    first = c.choice("first configuration", sorted(cf))
    data1 = c.choice("first data", ["codes", "pure"])

    def get(name, tag, conc):
        X, Y = DATA[name]
        X, Y = list(X), list(Y)
        if not conc:
            X[0] = c.real("x" + tag, 0, 3)
        if target == "continuous":
            Y = [y + 0.25 * i for i, y in enumerate(Y)]
        elif target == "multiclass":
            pass
        return X, Y

    def fit(ob, X, Y):
        with patch.prebin((1.0, 2.0)):
            if target == "scenario":
                ob.fit([arr(c, X), arr(c, [0.5, 0.6, 1.5, 1.6, 2.5, 2.6])],
                       [np.array(Y), np.array([0, 1] * 3)])
            else:
                ob.fit(arr(c, X), np.array(Y))
    with patch.cut_metrics(c):
        c.meta["same_solution"] = True
        c.meta["force"] = "none"        # the real solver decides
        X1, Y1 = get(data1, "a", True)
        X2, Y2 = get(data2, "b", False)
        ob = CLS[target](**cf[first])
        c.meta["solve_mode"] = "pin"
        try:
            fit(ob, X1, Y1)
        except ValueError:
            c.cover("first fit rejected")
        c.meta["solve_mode"] = "feasible"
        ref = CLS[target](**cf[second])
        e1 = e2 = None
        try:
            fit(ref, X2, Y2)
        except ValueError as e:
            e2 = str(e)
        defaults = CLS[target]().get_params()
        ob.set_params(**dict(defaults, **cf[second]))
        try:
            fit(ob, X2, Y2)
        except ValueError as e:
            e1 = str(e)
        c.prove(e1 == e2, "errors of a refit are those of a new object")
        if e2 is not None:
            c.cover("rejected")
            return
        same_snap(c, snapshot(c, ob, target, X2),
                  snapshot(c, ref, target, X2))
        c.cover("refitted")


def harnesses(tier):
    H = []

    def mk(name, tier="quick", expect=("bins=1", "bins=2"), **p):
        H.append(Harness(
            "refine " + name, lambda c, p=p: body_refine(c, **p),
            "%d symbolic values in [-10,10]%s, %d candidate splits, %d fixed "
            "records" % (len(p["ys"]), " with weights 0..5" if
                         p.get("weights") else "", len(p["cand"]),
                         len(p.get("seeds", ()))), expect=expect, tier=tier))
    S3 = (0.0, 1.0, 2.0)
    ends = ((-5.0, 0), (-5.0, 1), (5.0, 0), (5.0, 1))
    for how in ("user", "prebin"):
        mk("binary " + how, target="binary", cand=S3, ys=(0, 1), seeds=ends,
           how=how, expect=("bins=1", "bins=2", "bins=3"))
        mk("continuous " + how, target="continuous", cand=S3,
           ys=(0.5, 1.5), seeds=((5.0, 2.0),), how=how,
           expect=("bins=1", "bins=2", "bins=3"))
        mk("multiclass " + how, target="multiclass", cand=(0.0, 1.0),
           ys=(0, 1, 2), seeds=((-5.0, 0), (-5.0, 1), (-5.0, 2)), how=how)
        mk("scenario " + how, target="scenario", cand=(0.0, 1.0),
           ys=(0, 1), seeds=ends, how=how,
           expect=("bins=1", "bins=2", "bins=3"))
    mk("binary no anchors", target="binary", cand=S3, ys=(0, 0, 1, 1),
       expect=("bins=1", "bins=2"))
    mk("binary weights", target="binary", cand=(0.0, 1.0), ys=(0, 1),
       seeds=ends, weights=True, expect=("bins=1", "bins=2", "bins=3"))
    mk("continuous weights", target="continuous", cand=(0.0, 1.0),
       ys=(0.5,), seeds=((5.0, 2.0),), weights=True,
       expect=("bins=1", "bins=2"))
    for d, n in ((0, "0 digits"), (1, "1 digit")):
        for t in ("binary", "continuous"):
            mk("%s %s" % (t, n), target=t, cand=(0.04, 0.06, 0.56, 1.44),
               ys=(0, 1), seeds=ends, digits=d,
               expect=("bins=1", "bins=2"))
    for dv in ("hellinger", "triangular"):
        mk("binary " + dv, target="binary", cand=(0.0, 1.0), ys=(0, 1),
           seeds=ends, divergence=dv)
    for t in CLS:
        k = dict(target=t, cand=(0.0, 1.0), ys=(0, 1), seeds=ends)
        mk(t + " all fixed", fixed=(True, True), **k,
           expect=("rejected", "bins=3"))
        mk(t + " first fixed", fixed=(True, False), **k,
           expect=("bins=2", "bins=3"))
        mk(t + " last fixed", fixed=(False, True), **k,
           expect=("rejected", "bins=2"))
    for t in CLS:
        for s in sorted(cfgs(t)):
            for d in sorted(DATA):
                H.append(Harness(
                    "refit {} {} {}".format(t, s, d),
                    lambda c, a=(t, s, d): body_refit(c, *a),
                    "any first configuration and data set of {} x {}; one "
                    "symbolic record".format(len(cfgs(t)), 2),
                    expect=(), tier="quick" if d == "codes" or (
                        d == "plain" and s != "one") else "thorough"))
    return H
