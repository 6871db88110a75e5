"""C04: the counts of the binning table are a tally of the training records."""

from optbinning import (ContinuousOptimalBinning, MulticlassOptimalBinning,
                        OptimalBinning)
from optbinning.binning.uncertainty import SBOptimalBinning

from .c02 import cat_train
from .tr import *

ASSUMPTIONS = [
    "anchor records with concrete values keep both classes in every interval "
    "unless the harness is about degenerate (pure or empty) intervals",
    "integer sample weights (the code stores counts as integers)"]

SPL = (0.0, 2.0)
SC = {None: (None, []), "list": ([-9.0, -8.0], [-9.0, -8.0]),
      "dict": ({"A": -9.0, "B": [-8.0, -7.0]}, [-9.0, -8.0, -7.0])}


def group(special, code):
    return 0 if special != "dict" or code == -9.0 else 1


def route(c, v, splits, special):
    """list of (condition, row) of one record; rows as in the table"""
    nb, ns = len(splits) + 1, n_special(special)
    if isnan(v):
        return [(True, nb + ns)]
    out, free = [], []
    for code in SC[special][1]:
        e = core.s_eq(v, code)
        out.append((e, nb + group(special, code)))
        free.append(c.Not(e))
    for i in range(nb):
        out.append((c.And([in_bin(c, v, splits, i)] + free), i))
    return out


def tally(c, xs, vals, splits, special):
    """sum of vals of the records of every row"""
    rows = [0] * (len(splits) + 1 + n_special(special) + 1)
    for x, v in zip(xs, vals):
        for cond, r in route(c, x, splits, special):
            if cond is False:
                continue
            rows[r] = add(rows[r], v if cond is True else
                          core.s_ite(cond, v, 0))
    return rows


def total(rows):
    t = 0
    for r in rows:
        t = add(t, r)
    return t


def check_col(c, df, col, rows, label):
    got = lst(df[col])
    c.prove(len(got) == len(rows) + 1, "rows of the table")
    for i, r in enumerate(rows):
        c.prove(c.near(got[i], r), "%s of a row" % label)
    c.prove(c.near(got[-1], total(rows)), "%s of the totals" % label)


def symrec(c, kinds, special):
    """x of the symbolic records"""
    xs = []
    for i, k in enumerate(kinds):
        if k == "v":
            xs.append(c.real("x%d" % i, -10, 10))
        elif k == "nan":
            xs.append(nan())
        else:
            xs.append(float(k))
    return xs


ANCHOR = [-1.0, -1.0, 0.0, 1.0, 3.0, 3.5]     # two per interval
AY = [0, 1, 0, 1, 0, 1]


def body_binary(c, kinds, special=None, anchors=True, hi=100, weights=True,
                mode="user", divergence="triangular", digits=None,
                splits=SPL, as_array=False):
    with patch.cut_metrics(c):
        c.meta["lazy"] = True
        ys, w = [], []
        xs = symrec(c, kinds, special)
        for i in range(len(xs)):
            ys.append(c.choice("y%d" % i, [0, 1]) if i < 2 else i % 2)
            w.append(c.int("w%d" % i, 0 if anchors else 1, hi)
                     if weights else 1)
        if anchors:
            xs = xs + ANCHOR
            ys = ys + AY
            w = w + ([c.int("w%d" % (10 + i), 1, hi) if i < 2 else 1 + i
                      for i in range(6)] if weights else [1] * 6)
        sc = SC[special][0]
        if as_array:
            sc = np.array(sc)
        kw = dict(special_codes=sc, monotonic_trend=None,
                  divergence=divergence)
        if digits is not None:
            kw["split_digits"] = digits
        if mode == "user":
            kw["user_splits"] = list(splits)
        ob = OptimalBinning(**kw)
        with patch.prebin(splits):
            ob.fit(arr(c, xs), np.array(ys),
                   sample_weight=arr(c, w) if weights else None)
        sp = lst(ob.splits)
        c.cover("bins=%d" % (len(sp) + 1))
        c.prove(all(any(abs(float(s) - (round(t, digits) if digits is not None
                                        else t)) < 1e-9 for t in splits)
                    for s in sp), "splits are requested splits")
        c.prove(all(float(a) < float(b) for a, b in zip(sp, sp[1:])),
                "splits are increasing")
        df = ob.binning_table.build()
        ev = [v if y else 0 for v, y in zip(w, ys)]
        ne = [0 if y else v for v, y in zip(w, ys)]
        check_col(c, df, "Event", tally(c, xs, ev, sp, special), "events")
        check_col(c, df, "Non-event", tally(c, xs, ne, sp, special),
                  "non-events")
        check_col(c, df, "Count", tally(c, xs, w, sp, special), "count")
        # and the routing used by transform is the one of the table
        idx = lst(ob.transform(arr(c, xs), metric="indices",
                               metric_special="empirical",
                               metric_missing="empirical"))
        for x, i in zip(xs, idx):
            c.prove(c.Or([c.And(cond, c.eq(i, r)) for cond, r in
                          route(c, x, sp, special)]), "transform routing")
        if len(sp):
            nb = len(sp) + 1
            for a, b in zip(lst(df["Event"])[:nb], lst(df["Non-event"])[:nb]):
                c.prove(c.And(core.s_gt(a, 0), core.s_gt(b, 0)),
                        "no pure bin while several bins remain")


class Detector:
    """outlier detector flagging an arbitrary set of the clean records"""
    flags = []

    def set_params(self, **kw):
        pass

    def fit(self, x, y=None):
        self.n = len(x)
        return self

    def get_support(self):
        return np.array((Detector.flags + [False] * self.n)[:self.n],
                        dtype=bool)


def body_clean(c, target="binary", outliers=None, cw=None, hi=50):
    """records dropped as outliers are not counted; class weights multiply the
    sample weights; the caller's arrays stay as they are"""
    from optbinning.binning import preprocessing
    names = {"range": "RangeDetector", "zscore": "ModifiedZScoreDetector",
             "yquantile": "YQuantileDetector"}
    with patch.cut_metrics(c):
        c.meta["lazy"] = True
        xs = [c.real("x%d" % i, -10, 10) for i in range(2)] + [nan()] + ANCHOR
        ys = [c.choice("y0", [0, 1]), 1, 0] + AY
        w = [c.int("w%d" % i, 1, hi) for i in range(3)] + [
            1 + i % 3 for i in range(len(ANCHOR))]
        kw = dict(user_splits=list(SPL), monotonic_trend=None,
                  user_splits_fixed=[True, True])
        if target == "continuous":
            xs[1] = 1.0
            ys = [c.real("t0", -hi, hi), 3.0, 0.0] + [float(v) + 1 for v in AY]
        Detector.flags = [bool(c.choice("out%d" % i, [0, 1]))
                          for i in range(2)] if outliers else []
        if target == "binary":
            ob = OptimalBinning(divergence="triangular", class_weight=cw,
                                outlier_detector=outliers, **kw)
        else:
            ob = ContinuousOptimalBinning(outlier_detector=outliers, **kw)
        xa, wa = arr(c, xs), arr(c, w)
        ya = np.array(ys) if target == "binary" else arr(c, ys)
        old = {k: getattr(preprocessing, k, None) for k in names.values()}
        try:
            for k in old:
                setattr(preprocessing, k, Detector)
            ob.fit(xa, ya, sample_weight=wa)
        finally:
            for k, v in old.items():
                setattr(preprocessing, k, v)
        for a, b in zip(lst(wa), w):
            c.prove(c.eq(a, b), "weights of the caller are unchanged")
        sp = lst(ob.splits)
        c.cover("bins=%d" % (len(sp) + 1))
        keep = [not (i < 2 and outliers and Detector.flags[i])
                for i in range(len(xs))]
        ww = [v * cw[y] if cw else v for v, y in zip(w, ys)] \
            if target == "binary" else w
        ww = [v if k else 0 for v, k in zip(ww, keep)]
        df = ob.binning_table.build()
        check_col(c, df, "Count", tally(c, xs, ww, sp, None), "count")
        if target == "binary":
            check_col(c, df, "Event", tally(
                c, xs, [v if y else 0 for v, y in zip(ww, ys)], sp, None),
                "events")
        else:
            check_col(c, df, "Sum", tally(
                c, xs, [mul(a, b) if k else 0
                        for a, b, k in zip(ww, ys, keep)], sp, None), "sum")


def body_bounds(c, lb, ub):
    """bounds of the admissible values of the preprocessing"""
    from optbinning.binning.preprocessing import split_data
    xs = [c.real("x%d" % i, -10, 10) for i in range(2)] + [nan(), 0.5]
    ys = [0, 1, 0, 1]
    w = [c.int("w%d" % i, 1, 50) for i in range(4)]
    out = split_data("numerical", arr(c, xs), np.array(ys), fix_lb=lb,
                     fix_ub=ub, sample_weight=arr(c, w))
    keep = [i for i in (0, 1, 3)
            if (lb is None or bool(core.s_le(lb, xs[i]))) and
            (ub is None or bool(core.s_le(xs[i], ub)))]
    c.cover("kept %d" % len(keep))
    for got, ref, what in ((out[0], xs, "values"), (out[1], ys, "targets"),
                           (out[9], w, "weights")):
        got = lst(got)
        c.prove(len(got) == len(keep), "number of clean " + what)
        for g, i in zip(got, keep):
            c.prove(c.eq(g, ref[i]), "clean " + what)
    c.prove(len(lst(out[2])) == 1 and c.eq(lst(out[10])[0], w[2]),
            "missing record")


def body_cont(c, kinds, special=None, anchors=True, hi=50, weights=True,
              symy=True, mode="user"):
    with patch.cut_metrics(c):
        c.meta["lazy"] = True
        xs = symrec(c, kinds, special)
        ys, w = [], []
        for i in range(len(xs)):
            ys.append(c.real("y%d" % i, -hi, hi) if symy else float(3 * i % 4))
            w.append(c.int("w%d" % i, 1, hi) if weights else 1)
        if anchors:
            xs = xs + ANCHOR[::2]
            ys = ys + [1.0, 2.0, 4.0]
            w = w + [1, 1, 1]
        kw = dict(special_codes=SC[special][0], monotonic_trend=None)
        if mode == "user":
            kw["user_splits"] = list(SPL)
        ob = ContinuousOptimalBinning(**kw)
        with patch.prebin(SPL):
            ob.fit(arr(c, xs), arr(c, ys),
                   sample_weight=arr(c, w) if weights else None)
        sp = lst(ob.splits)
        c.cover("bins=%d" % (len(sp) + 1))
        c.prove(all(any(abs(float(s) - t) < 1e-9 for t in SPL) for s in sp),
                "splits are requested splits")
        df = ob.binning_table.build()
        check_col(c, df, "Count", tally(c, xs, w, sp, special), "count")
        check_col(c, df, "Sum", tally(c, xs, [mul(a, b) for a, b in
                                              zip(w, ys)], sp, special),
                  "sum")
        zr = [core.s_ite(core.s_eq(y, 0), a, 0) for a, y in zip(w, ys)]
        check_col(c, df, "Zeros count", tally(c, xs, zr, sp, special),
                  "zeros")
        # extremes: attained by a record of the row, bound the others
        mn, mx = lst(df["Min"]), lst(df["Max"])
        nrow = len(sp) + 1 + n_special(special) + 1
        for r in range(nrow):
            att1, att2, some = [], [], []
            for x, y in zip(xs, ys):
                for cond, q in route(c, x, sp, special):
                    if q != r or cond is False:
                        continue
                    some.append(cond)
                    if isnan(mn[r]) or mn[r] is None:
                        continue
                    c.prove(c.Or(c.Not(cond), c.And(
                        core.s_le(mn[r], y), core.s_ge(mx[r], y))),
                        "min and max bound the targets of the row")
                    att1.append(c.And(cond, c.eq(mn[r], y)))
                    att2.append(c.And(cond, c.eq(mx[r], y)))
            if isnan(mn[r]) or mn[r] is None:
                c.prove(c.Not(c.Or(some)), "row without min has no record")
            elif some:
                c.prove(c.Or(c.Not(c.Or(some)), c.And(
                    c.Or(att1), c.Or(att2))), "min and max are attained")


STD_X = [-1.0, -1.0, -2.0, 1.0, 1.0, 3.0, None, None, -9.0, -9.0, -8.0]
STD_W = [3, 1, 2, 2, 1, 4, 2, 3, 1, 2, 3]
STD_G = {"low": [0, 1, 2], "middle": [3, 4], "missing": [6, 7],
         "special": [8, 9, 10]}


def body_std(c, group, special=None, weights=True, merged=False):
    """squared standard deviation of a row times its weight: the weighted
    sum of squares minus the squared weighted sum over the weight"""
    with patch.cut_metrics(c):
        xs = [nan() if x is None else x for x in STD_X]
        w = STD_W if weights else [1] * len(xs)
        if special is None:
            xs, w = xs[:8], w[:8]
        sym = [i for i in STD_G[group] if i < len(xs)]
        ys = [c.real("y%d" % i, -20, 20) if i in sym else float(i * i % 7)
              for i in range(len(xs))]
        if merged:
            # one bin over every prebin: only the merge computes its std
            kw = dict(user_splits=[-1.5, 0.0, 2.0], max_n_bins=1)
        else:
            kw = dict(user_splits=list(SPL), user_splits_fixed=[True] * 2)
        ob = ContinuousOptimalBinning(special_codes=SC[special][0],
                                      monotonic_trend=None, **kw)
        ob.fit(arr(c, xs), arr(c, ys),
               sample_weight=np.array(w) if weights else None)
        sp = lst(ob.splits)
        c.cover("bins=%d" % (len(sp) + 1))
        df = ob.binning_table.build()
        std = lst(df["Std"])
        nrow = len(sp) + 1 + n_special(special) + 1
        rows = [[] for _ in range(nrow)]
        for x, y, v in zip(xs, ys, w):
            for cond, r in route(c, x, sp, special):
                if cond is True or (cond is not False and bool(cond)):
                    rows[r].append((y, v))
        for r, rec in enumerate(rows):
            if not rec:
                continue
            n = sum(v for _, v in rec)
            s, q = 0, 0
            for y, v in rec:
                s = add(s, mul(v, y))
                q = add(q, mul(v, mul(y, y)))
            want = sub(mul(n, q), mul(s, s))
            c.prove(c.near(mul(n * n, mul(std[r], std[r])), want),
                    "squared standard deviation of a row")
            c.prove(core.s_ge(std[r], 0), "standard deviation sign")


def body_multi(c, kinds, special=None, anchors=True):
    with patch.cut_metrics(c):
        c.meta["lazy"] = True
        xs = symrec(c, kinds, special)
        ys = [c.choice("y%d" % i, [0, 2]) if i < 1 else (i + 1) % 3
              for i in range(len(xs))]
        if anchors:
            xs = xs + [-1.0, -1.5, -0.5, 0.5, 1.5, 1.0, 3.0, 3.5, 4.0]
            ys = ys + [0, 1, 2] * 3
        else:
            xs = xs + [-1.0, -1.5, -0.5, 3.0, 3.5, 4.0, 1.0]
            ys = ys + [0, 1, 2] * 2 + [0]
        ob = MulticlassOptimalBinning(
            special_codes=SC[special][0], monotonic_trend=None,
            user_splits=list(SPL))
        ob.fit(arr(c, xs), np.array(ys))
        sp = lst(ob.splits)
        c.cover("bins=%d" % (len(sp) + 1))
        df = ob.binning_table.build()
        for k in range(3):
            check_col(c, df, "Event_%d" % k, tally(
                c, xs, [1 if y == k else 0 for y in ys], sp, special),
                "events of a class")
        check_col(c, df, "Count", tally(c, xs, [1] * len(xs), sp, special),
                  "count")


def body_scen(c, kinds, special=None):
    with patch.cut_metrics(c):
        c.meta["lazy"] = True
        X, Y = [], []
        for s in range(2):
            xs = [c.real("x%d_%d" % (s, i), -10, 10) if k == "v" else
                  nan() if k == "nan" else float(k)
                  for i, k in enumerate(kinds if s == 0 else kinds[::-1])]
            X.append(xs + ANCHOR)
            Y.append([(i + s) % 2 for i in range(len(xs))] + AY)
        ob = SBOptimalBinning(user_splits=list(SPL), monotonic_trend=None,
                              special_codes=SC[special][0])
        ob.fit([arr(c, x) for x in X], [np.array(y) for y in Y])
        sp = lst(ob.splits)
        c.cover("bins=%d" % (len(sp) + 1))
        for s in range(2):
            df = ob.binning_table_scenario(s).build()
            check_col(c, df, "Event", tally(c, X[s], Y[s], sp, special),
                      "events")
            check_col(c, df, "Non-event", tally(
                c, X[s], [1 - y for y in Y[s]], sp, special), "non-events")
        df = ob.binning_table.build()
        check_col(c, df, "Event", tally(c, X[0] + X[1], Y[0] + Y[1], sp,
                                        special), "events of all scenarios")
        check_col(c, df, "Count", tally(
            c, X[0] + X[1], [1] * (len(X[0]) + len(X[1])), sp, special),
            "count of all scenarios")


def body_cat(c, kind, special, hi=50, missing=True, target="binary"):
    with patch.cut_metrics(c):
        c.meta["lazy"] = True
        recd = []
        ob, order, others, codes = cat_train(
            c, target, kind, special, None, hi, missing, None, recd)
        x, y, w = recd
        bins = [[str(v) for v in b] for b in ob.splits]
        c.cover("bins=%d" % len(bins))
        rows = {}
        for i, b in enumerate(bins):
            for v in b:
                rows[v] = i
        nb = len(bins)
        for j, cd in enumerate(codes):
            rows[cd] = nb + (0 if special != "dict" or j == 0 else 1)
        rows[None] = nb + n_special(special)
        df = ob.binning_table.build()
        c.prove(all(v in rows for v in x), "every category has a bin")

        def t(vals):
            out = [0] * (nb + n_special(special) + 1)
            for a, v in zip(x, vals):
                out[rows[a]] = add(out[rows[a]], v)
            return out
        if target == "binary":
            check_col(c, df, "Event", t([b if a else 0 for a, b in
                                         zip(y, w)]), "events")
            check_col(c, df, "Non-event", t([0 if a else b for a, b in
                                             zip(y, w)]), "non-events")
        else:
            check_col(c, df, "Sum", t(y), "sum")
        check_col(c, df, "Count", t(w), "count")


def harnesses(tier):
    H = []

    def mk(name, f, bounds, tier="quick", expect=(), weight=1, **p):
        H.append(Harness(name, lambda c: f(c, **p), bounds, tier=tier,
                         expect=expect, weight=weight))
    V2 = ["v", "v"]
    bb = "symbolic values in [-10,10], targets and weights, %s, splits 0 and 2"
    for sp, kinds in ((None, ["v", "v", "nan"]),
                      ("list", ["v", "nan", "-9", "-8"]),
                      ("dict", ["v", "nan", "-9", "-8", "-7"])):
        mk("binary special=%s" % sp, body_binary, bb % kinds, kinds=kinds,
           special=sp, expect=("bins=3",))
    mk("binary special=array", body_binary, bb % "v", kinds=["v", "nan"],
       special="list", as_array=True)
    mk("binary prebinning", body_binary, bb % "v", kinds=["v", "nan", "-9"],
       special="list", mode="pre")
    mk("binary no weights", body_binary, bb % "3 records",
       kinds=["v", "v", "nan"], special=None, weights=False)
    for dv in ("iv", "triangular"):
        mk("binary pure prebins %s" % dv, body_binary,
           bb % "4 records, no anchors", kinds=["v", "v", "-1", "3"],
           anchors=False, divergence=dv, weights=False,
           expect=("bins=1", "bins=2"), weight=3)
    mk("binary pure prebins weights", body_binary,
       bb % "5 records, no anchors", kinds=["v", "v", "-1", "3", "3"],
       anchors=False, divergence="iv", tier="thorough")
    mk("binary split digits", body_binary, bb % "splits rounded",
       kinds=["v", "nan"], divergence="iv", digits=0, splits=(0.6, 1.4, 2.2))
    mk("binary split digits prebinning", body_binary, bb % "splits rounded",
       kinds=["v"], divergence="triangular", digits=0, mode="pre",
       splits=(0.6, 1.4, 2.2), tier="thorough")
    cb = "symbolic values in [-10,10], real targets, weights, %s"
    mk("continuous", body_cont, cb % "2 records", kinds=["v", "nan"],
       expect=("bins=3",))
    mk("continuous no weights", body_cont, cb % "3 records",
       kinds=["v", "v", "nan"], weights=False)
    mk("continuous special=list", body_cont, cb % "3 records",
       kinds=["v", "nan", "-9"], special="list", weights=False)
    mk("continuous special=dict", body_cont, cb % "3 records",
       kinds=["v", "-9", "-8", "-7"], special="dict", weights=False)
    mk("continuous special=dict weights", body_cont, cb % "3 records",
       kinds=["v", "-9", "-8"], special="dict", mode="pre", symy=False)
    mk("continuous empty prebins", body_cont, cb % "2 records, no anchors",
       kinds=["v", "v"], anchors=False, weights=False)
    sb = "targets of the records of one row real in [-20,20], the others " \
         "concrete; weights %s"
    for g in STD_G:
        for sp in (None, "list", "dict"):
            for wt in (True, False):
                if sp is None and g == "special":
                    continue
                mk("continuous std %s special=%s weights=%s" % (g, sp, wt),
                   body_std, sb % wt, group=g, special=sp, weights=wt,
                   tier="quick" if wt and (sp == "list" or g == "low")
                   else "thorough", expect=("bins=3",))
    for wt in (True, False):
        mk("continuous std merged weights=%s" % wt, body_std, sb % wt,
           group="low", weights=wt, merged=True, expect=("bins=1",),
           tier="quick" if wt else "thorough", weight=5)
    mb = "symbolic values in [-10,10], 3 classes, %s"
    mk("multiclass", body_multi, mb % "2 records", kinds=V2 + ["nan"],
       expect=("bins=3",))
    for sp in ("list", "dict"):
        mk("multiclass special=%s" % sp, body_multi, mb % "3 records",
           kinds=["v", "nan", "-9", "-8"], special=sp)
    mk("multiclass pure prebins", body_multi, mb % "2 records",
       kinds=["v", "nan"], anchors=False)
    mk("scenarios", body_scen, "2 scenarios of 2 symbolic values and a "
       "missing one", kinds=V2[:1] + ["nan"], expect=("bins=3",))
    mk("scenarios special=list", body_scen, "2 scenarios",
       kinds=["v", "nan", "-9"], special="list")
    for o in ("range", "zscore", "yquantile"):
        if o != "yquantile":
            mk("binary outliers " + o, body_clean, bb % "any outliers",
               outliers=o, expect=("bins=3",),
               tier="quick" if o == "range" else "thorough")
        mk("continuous outliers " + o, body_clean, cb % "any outliers",
           target="continuous", outliers=o, expect=("bins=3",))
    mk("binary class weights", body_clean, bb % "class weights",
       cw={0: 2, 1: 3}, expect=("bins=3",))
    for lb, ub in ((-1, 2), (0.5, None), (None, 0.5)):
        mk("bounds %s %s" % (lb, ub), body_bounds, bb % "3 clean records",
           lb=lb, ub=ub, expect=("kept 1", "kept 3"))
    for t in ("binary", "continuous"):
        for kind in ("user", "cutoff", "none"):
            for s in (None, "list", "dict"):
                mk("%s categorical %s special=%s" % (t, kind, s), body_cat,
                   "weights in [1,50], 4 categories + 2 others",
                   kind=kind, special=s, target=t,
                   tier="quick" if (kind, s) in (
                       ("user", "dict"), ("cutoff", "list"),
                       ("none", None)) else "thorough")
    return H
