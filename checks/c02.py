"""C02: routing and values of categorical variables, unknown categories."""

from .tr import *

ASSUMPTIONS = [
    "the prebinning algorithm (CART) is replaced by a stub returning one "
    "split between every pair of consecutive ordered categories",
    "records per category are weighted symbolically; the order of the "
    "categories by mean target is concrete (a < b < c < d)"]

CATS = ["b", "a", "d", "c"]          # order of appearance
SYMW = [("b", 1), ("c", 0), ("S1", 1), (None, 0), ("o1", 0)]
RATE = {"a": (4, 1), "b": (3, 2), "c": (2, 3), "d": (1, 4)}


def cat_train(c, target, kind, special, unknown, hi, missing, merge,
              rec=None):
    """returns fitted object, expected bins (lists of categories), others"""
    x, y, w = [], [], []
    codes = {None: [], "list": ["S1", "S2"], "dict": ["S1", "S2", "S3"]}[
        special]
    sc = {None: None, "list": ["S1", "S2"],
          "dict": {"A": "S1", "B": ["S2", "S3"]}}[special]
    others = []
    names = list(CATS)
    if kind == "user4":
        names += ["o1", "o2"]
    elif kind == "user":
        names += ["o1", "o2"]        # not covered by user splits
        others = ["o1", "o2"]
    elif kind == "cutoff":
        names += ["o1", "o2"]        # rare
        others = ["o1", "o2"]
    wt = 0
    for nm in names + codes + ([None] if missing else []):
        if nm in RATE:
            n, e = RATE[nm]
        elif nm in ("o1", "o2"):
            n, e = (1, 0) if nm == "o1" else (0, 1)
        else:
            n, e = 1, 1
        for k, cl in ((n, 0), (e, 1)):
            for j in range(k):
                x.append(nm)
                if target == "continuous":
                    # concrete order of the means, symbolic values
                    y.append(c.real("y%d" % len(y), 10 * e, 10 * e + 9)
                             if j == 0 else float(10 * e + 2))
                else:
                    y.append(cl)
                if j == 0 and target == "binary" and (nm, cl) in SYMW:
                    w.append(c.int("w%d" % wt, 1, hi))
                    wt += 1
                else:
                    w.append(1)
    kw = dict(dtype="categorical", special_codes=sc, cat_unknown=unknown,
              monotonic_trend=None)
    xs = np.array(x, dtype=object)
    if kind == "user":
        kw["user_splits"] = np.array([["d"], ["b", "a"], ["c"]],
                                     dtype=object)
        order = [["b", "a"], ["c"], ["d"]]
        splits = None
        nsol = 3
    elif kind == "user4":
        kw["user_splits"] = np.array([["d", "b", "a", "c"], ["o2", "o1"]],
                                     dtype=object)
        order = [["d", "b", "a", "c"], ["o2", "o1"]]
        splits = None
        nsol = 2
    else:
        order = [["a"], ["b"], ["c"], ["d"]]
        splits = [0.5, 1.5, 2.5]
        nsol = 4
        if kind == "cutoff":
            kw["cat_cutoff"] = 0.06
    if target == "binary":
        ob = OptimalBinning(divergence="triangular", **kw)
    else:
        ob = ContinuousOptimalBinning(**kw)
    if rec is not None:
        rec += [x, y, w]
    with patch.prebin(splits):
        ob.fit(xs, arr(c, y), sample_weight=arr(c, w)
               if target == "binary" else None)
    return ob, order, others, codes


def body(c, target="binary", kind="user", special=None, unknown=None, hi=50,
         missing=True, metrics=None, merge=True):
    with patch.cut_metrics(c):
        _body(c, target, kind, special, unknown, hi, missing, metrics, merge)


def _body(c, target, kind, special, unknown, hi, missing, metrics, merge):
    c.meta["lazy"] = True
    ob, order, others, codes = cat_train(c, target, kind, special, unknown,
                                         hi, missing, merge)
    bins = [[str(v) for v in b] for b in ob.splits]
    # a partition of the categories into runs of the target order
    flat = [v for b in bins for v in b]
    exp = [v for b in order for v in b] + others
    c.prove(sorted(flat) == sorted(exp), "every category in exactly one bin")
    main = bins[:-1] if others else bins
    if others:
        c.prove(sorted(bins[-1]) == sorted(others), "bin of other categories")
    pos = {v: i for i, b in enumerate(order) for v in b}
    p = [pos[v] for b in main for v in b]
    if kind == "user4":
        # the order of the two groups depends on the weights
        c.prove(all(len({i for v in g for i, b in enumerate(bins) if v in b}
                        ) == 1 for g in order), "user bins stay whole")
    else:
        c.prove(p == sorted(p), "bins follow the order of the target mean")
    nb = len(bins)
    ns = 2 if special == "dict" else 1
    df = ob.binning_table.build()
    c.cover("fitted")
    names = lst(df["Bin"])[:nb]
    c.prove(all(sorted(str(v) for v in a) == sorted(b)
                for a, b in zip(names, bins)), "table rows list the bins")
    recs, rows = [], []
    for i, b in enumerate(bins):
        for v in b:
            recs.append(v)
            rows.append(i)
    recs += codes + [None, "never seen"]
    rows += ([nb, nb + 1, nb + 1][:len(codes)] if special == "dict"
             else [nb] * len(codes)) + [nb + ns, -1]
    x = np.array(recs, dtype=object)
    for metric in metrics:
        out = ob.transform(x, metric=metric, metric_special="empirical",
                           metric_missing="empirical")
        out2 = ob.transform(x, metric=metric)
        out, out2 = lst(out), lst(out2)
        if metric in COLS:
            vals = [v if core.is_sym(v) else float(v)
                    for v in lst(df[COLS[metric]])[:nb + ns + 1]]
            if target == "continuous" and metric == "mean":
                vals = [v if core.is_sym(v) or v == v else 0.0
                        for v in vals]
            if unknown is not None:
                unk = unknown
            elif metric == "woe":
                unk = 0.0
            elif metric == "event_rate":
                unk = c.div(tot(df, "Event"), tot(df, "Count"))
            else:
                unk = c.div(tot(df, "Sum"), tot(df, "Count"))
            for o, o2, r in zip(out, out2, rows):
                if r == -1:
                    c.prove(c.near(o, unk), metric + " of unknown category")
                    c.prove(c.near(o2, unk), metric + " of unknown category")
                else:
                    c.prove(c.near(o, vals[r]), metric + " of the table row")
                    c.prove(c.near(o2, vals[r] if r < nb else 0.0),
                            metric + " default of special and missing")
        elif metric == "indices":
            unk = -1 if unknown is None else unknown
            for o, r in zip(out, rows):
                c.prove(o == (unk if r == -1 else r), "index of category")
        else:
            unk = "unknown" if unknown is None else unknown
            lab = [str(np.array(b)) for b in bins]
            for o, o2, r in zip(out, out2, rows):
                if r == -1:
                    c.prove(o == unk and o2 == unk, "label of unknown")
                elif r < nb:
                    c.prove(all("'%s'" % v in o for v in bins[r]) and
                            o.count("'") == 2 * len(bins[r]) and o == o2,
                            "label of category")
                elif r == nb + ns:
                    c.prove(o == "Missing" and o2 == o, "label of missing")
                else:
                    e = "Special" if special != "dict" else "AB"[r - nb]
                    c.prove(o == e and o2 == e, "label of special")
        c.cover(metric)


def tot(df, col):
    v = lst(df[col])
    return v[-1]


def harnesses(tier):
    H = []

    def mk(name, metrics, tier="quick", **p):
        H.append(Harness(
            name, lambda c, p=p, m=metrics: body(c, metrics=m, **p),
            "4 categories (+2 others), weights in [1,%d]" % p.get("hi", 50),
            expect=("fitted",) + tuple(metrics), tier=tier))
    for t, vm in (("binary", ["woe", "event_rate"]),
                  ("continuous", ["mean"])):
        for kind in ("user", "cutoff", "none"):
            for s in (None, "list", "dict"):
                q = "quick" if (kind, s) in (
                    ("user", "list"), ("cutoff", None), ("none", "dict"),
                    ("cutoff", "list")) else "thorough"
                mk("%s %s special=%s" % (t, kind, s), vm + [
                    "indices", "bins"], tier=q, target=t, kind=kind,
                   special=s)
        mk("%s user4" % t, vm + ["indices", "bins"], target=t, kind="user4")
        for u, m in ((0, vm), (2.5, vm), (7, ["indices"]), ("?", ["bins"])):
            mk("%s cat_unknown=%r" % (t, u), m, target=t, kind="cutoff",
               special="list", unknown=u)
    return H
