"""C16: binning sketches keep exact counts under any adds and merges."""

from optbinning.binning.distributed import binning_process_sketch as BP
from optbinning.binning.distributed.binning_process_sketch import \
    BinningProcessSketch
from optbinning.binning.distributed.binning_sketch import OptimalBinningSketch
from optbinning.binning.distributed.bsketch import BCatSketch, BSketch
from optbinning.binning.distributed.gk import GK

import pandas as pd

from .c19 import ordered, using
from .lib import *

ASSUMPTIONS = [
    "Greenwald-Khanna sketches only (the t-digest package draws random "
    "numbers and is not encoded)",
    "counts per bin are exact while a sketch holds at most 1/eps records; "
    "beyond that only the totals and the rank error bound are claimed",
    "the optimisation engine returns any solution of the model"]

CODE = -99.0
EMP = dict(metric_special="empirical", metric_missing="empirical")


def values(c, n, lo=-50, hi=50):
    return [c.real("x%d" % i, lo, hi) for i in range(n)]


def classes(c, n):
    """target of every record, decided"""
    return [int(c.choice("y%d" % i, [0, 1])) for i in range(n)]


def kinds(c, n):
    return [c.choice("k%d" % i, ["v", "nan", "s"]) for i in range(n)]


def value(k, x):
    return {"v": x, "nan": float("nan"), "s": CODE}[k]


# programs: ("add", sketch, records), ("merge", into, from)
PROGRAMS = {
    "add": [("add", 0, [0, 1]), ("add", 0, [2])],
    "pair": [("add", 0, [0, 1]), ("add", 1, [2]), ("merge", 0, 1)],
    "add after merge": [("add", 0, [0]), ("add", 1, [1]), ("merge", 0, 1),
                        ("add", 0, [2])],
    "argument used later": [("add", 0, [0]), ("add", 1, [1]),
                            ("merge", 0, 1), ("add", 1, [2])],
    "into empty": [("add", 1, [0, 1]), ("merge", 0, 1), ("add", 0, [2])],
    "into empty, argument used later": [
        ("add", 1, [0, 1]), ("merge", 0, 1), ("add", 1, [2])],
    "from empty": [("add", 0, [0, 1]), ("merge", 0, 1), ("add", 0, [2])],
    "chain": [("add", 0, [0]), ("add", 1, [1]), ("add", 2, [2]),
              ("merge", 1, 2), ("merge", 0, 1)],
    "tree": [("add", 0, [0]), ("add", 1, [1]), ("add", 2, [2]),
             ("merge", 0, 2), ("merge", 0, 1)],
    "twice": [("add", 0, [0]), ("add", 1, [1, 2]), ("merge", 0, 1),
              ("merge", 0, 1)],
    "both ways": [("add", 0, [0, 1]), ("add", 1, [2]), ("merge", 0, 1),
                  ("merge", 1, 0)],
}


def execute(prog, add, merge, n):
    """run a history; returns the records held by every sketch"""
    held = [[] for _ in range(n)]
    for op, a, b in prog:
        if op == "add":
            add(a, b)
            held[a] += b
        else:
            merge(a, b)
            held[a] += held[b]
    return held


def nsk(prog):
    return 1 + max(max(a, b if op == "merge" else a) for op, a, b in prog)


def check_num(c, sk, held, x, y, k, splits):
    for cl, e, m, s in ((1, sk.n_event, sk._count_missing_e,
                         sk._count_special_e),
                        (0, sk.n_nonevent, sk._count_missing_ne,
                         sk._count_special_ne)):
        mine = [r for r in held if y[r] == cl]
        c.prove(e == len(mine), "records of every class are counted")
        c.prove(m == sum(k[r] == "nan" for r in mine), "missing records")
        c.prove(s == sum(k[r] == "s" for r in mine), "special records")
    c.prove(sk.n == len(held), "number of records")
    be, bn = sk.bins(arr(c, splits))
    be, bn = lst(be), lst(bn)
    c.prove(len(be) == len(bn) == len(splits) + 1, "one count per bin")
    for i in range(len(splits) + 1):
        for cl, b in ((1, be), (0, bn)):
            t = 0
            for r in held:
                if k[r] == "v" and y[r] == cl:
                    ok = (i == 0 or bool(splits[i - 1] <= x[r])) and (
                        i == len(splits) or bool(x[r] < splits[i]))
                    t += ok
            c.prove(c.eq(b[i], t), "count of bin is the tally of the records")


def body_num(c, prog, n, mixed, ns):
    prog = PROGRAMS[prog]
    x = values(c, n)
    y = classes(c, n)
    k = kinds(c, n) if mixed else ["v"] * n
    splits = [c.real("t%d" % i, -50, 50) for i in range(ns)]
    for a, b in zip(splits, splits[1:]):
        c.assume(a < b)
    sks = [BSketch(eps=0.05, special_codes=[CODE])
           for _ in range(nsk(prog))]

    def add(a, recs):
        sks[a].add(arr(c, [value(k[r], x[r]) for r in recs]),
                   np.array([y[r] for r in recs]))

    held = execute(prog, add, lambda a, b: sks[a].merge(sks[b]), len(sks))
    c.cover("ran")
    for sk, h in zip(sks, held):
        check_num(c, sk, h, x, y, k, splits)


PREFIX = {"up": lambda k: list(range(k)),
          "down": lambda k: list(range(k))[::-1],
          "zigzag": lambda k: [i // 2 if i % 2 == 0 else k - 1 - i // 2
                               for i in range(k)]}


def body_gk(c, eps, n, parts, prefix=None, free=None):
    """the summary itself, with compression"""
    if prefix is None:
        x = values(c, n)
    else:                   # given first records, any others
        k = n - free
        x = [float(10 * v) for v in PREFIX[prefix](k)] + [
            c.real("x%d" % i, -5, 10 * k) for i in range(free)]
    order = ordered(x)
    pos = 0
    gk = None
    for m in parts:
        g = GK(eps)
        for r in range(pos, pos + m):
            g.add(x[r])
        pos += m
        if gk is None:
            gk = g
        else:
            gk.merge(g)
    c.prove(gk.n == n, "number of records")
    gk.merge_compress()
    e = gk.entries
    c.cover("built")
    if len(e) < n:
        c.cover("compressed")
    c.prove(sum(t.g for t in e) == n, "entries represent every record")
    c.prove(c.And([a.value <= b.value for a, b in zip(e, e[1:])]),
            "entries are ordered")
    c.prove(c.And([c.Or([c.eq(t.value, v) for v in x]) for t in e]),
            "entries are values of the data")
    spread = int(eps * (n - 1))
    for q in (0, 0.25, 0.5, 0.75, 1):
        v = gk.quantile(q)
        rank = int(q * (n - 1) + 1)
        lo = max(rank - spread, 1)
        hi = min(rank + spread, n)
        c.prove(c.And([order[lo - 1] <= v, v <= order[hi - 1]]),
                "rank error of a quantile is at most eps")


CATS = ["a", "b", "c"]


def body_cat(c, prog, n, mixed):
    prog = PROGRAMS[prog]
    y = classes(c, n)
    opts = CATS[:2] + (["nan", "s"] if mixed else ["c"])
    k = [c.choice("c%d" % i, opts) for i in range(n)]
    sks = [BCatSketch(special_codes=["s"]) for _ in range(nsk(prog))]

    def add(a, recs):
        sks[a].add(np.array([None if k[r] == "nan" else k[r] for r in recs],
                            dtype=object), np.array([y[r] for r in recs]))

    held = execute(prog, add, lambda a, b: sks[a].merge(sks[b]), len(sks))
    c.cover("ran")
    for sk, h in zip(sks, held):
        for cl, e, m, s in ((1, sk.n_event, sk._count_missing_e,
                             sk._count_special_e),
                            (0, sk.n_nonevent, sk._count_missing_ne,
                             sk._count_special_ne)):
            mine = [r for r in h if y[r] == cl]
            c.prove(e == len(mine), "records of every class are counted")
            c.prove(m == sum(k[r] == "nan" for r in mine), "missing records")
            c.prove(s == sum(k[r] == "s" for r in mine), "special records")
        check_cat_bins(c, sk, {
            t: [sum(k[r] == t and y[r] == cl for r in h) for cl in (0, 1)]
            for t in CATS if any(k[r] == t for r in h)}, None, len(h))


def check_cat_bins(c, sk, exp, cutoff, n):
    splits, cats, ne, ev, oth, ne_o, ev_o = sk.bins()
    cats, ne, ev = lst(cats), lst(ne), lst(ev)
    small = []
    if cutoff is not None:
        for t, (a, b) in exp.items():
            if bool(add(a, b) < mul(cutoff, n)):
                small.append(t)
    c.prove(sorted(lst(oth)) == sorted(small), "rare categories are others")
    c.prove(sorted(cats) == sorted(t for t in exp if t not in small),
            "one bin per remaining category")
    c.prove([float(s) for s in lst(splits)] == [
        0.5 + i for i in range(max(len(cats) - 1, 0))],
        "one split between consecutive categories")
    for t, a, b in zip(cats, ne, ev):
        c.prove(c.And([c.eq(a, exp[t][0]), c.eq(b, exp[t][1])]),
                "counts of category")
    for i in range(len(cats) - 1):
        c.prove(mul(ev[i], add(ne[i + 1], ev[i + 1])) <=
                mul(ev[i + 1], add(ne[i], ev[i])),
                "categories are ordered by event rate")
    if cutoff is not None:
        c.prove(c.And([c.eq(ne_o, c.sum([exp[t][0] for t in small])),
                       c.eq(ev_o, c.sum([exp[t][1] for t in small]))]),
                "counts of other categories")


def body_cutoff(c, ncat, hi):
    """any counts of the categories"""
    sk = BCatSketch(cat_cutoff=0.2)
    exp = {}
    for i in range(ncat):
        a, b = c.int("n%d" % i, 0, hi), c.int("e%d" % i, 0, hi)
        c.assume(add(a, b) > 0)
        exp["k%d" % i] = [a, b]
    exp["z"] = [3, 4]
    sk._d_categories = {t: list(v) for t, v in exp.items()}
    check_cat_bins(c, sk, exp, 0.2,
                   total([add(a, b) for a, b in exp.values()]))
    c.cover("ran")


def table_rows(ob):
    bt = ob.binning_table
    return lst(bt.n_nonevent), lst(bt.n_event)


def check_tally(c, ob, recs, idx):
    """recs: (class, count) per record; idx: transform indices"""
    ne, ev = table_rows(ob)
    for i in range(len(ne)):
        for cl, col in ((0, ne), (1, ev)):
            t = total([w for (k, w), j in zip(recs, idx)
                       if k == cl and j == i])
            c.prove(c.eq(col[i], t), "table counts the records of its bin")


def body_solve(c, n, kw, mixed, prog=None):
    x = values(c, n, *((0, 3) if "split_digits" in kw else (-50, 50)))
    y = classes(c, n)
    xs, ys = list(x), list(y)
    if mixed:
        xs += [float("nan"), CODE, CODE]
        ys += [1, 0, 1]
    c.assume(0 in ys and 1 in ys)
    with patch.cut_metrics(c):
        a = OptimalBinningSketch(special_codes=[CODE], eps=0.05, **kw)
        if prog == "merge":
            b = OptimalBinningSketch(special_codes=[CODE], eps=0.05, **kw)
            b.add(arr(c, xs[1:]), np.array(ys[1:]))
            a.add(arr(c, xs[:1]), np.array(ys[:1]))
            a.merge(b)
        elif prog == "merge into empty":
            b = OptimalBinningSketch(special_codes=[CODE], eps=0.05, **kw)
            b.add(arr(c, xs), np.array(ys))
            a.merge(b)
            a.merge(OptimalBinningSketch(special_codes=[CODE], eps=0.05,
                                         **kw))
        else:
            a.add(arr(c, xs), np.array(ys))
        a.solve()
        if not c.symbolic:
            status_ok(c, a.status)
        c.cover("solved")
        sp = lst(a.splits)
        if sp:
            c.cover("split")
        c.prove(c.And([s < t for s, t in zip(sp, sp[1:])]),
                "splits strictly increase")
        if kw.get("split_digits") is None:
            c.prove(c.And([c.Or([c.eq(s, v) for v in x]) for s in sp]),
                    "splits are values of the data")
        idx = lst(a.transform(arr(c, xs), metric="indices", **EMP))
        check_tally(c, a, [(k, 1) for k in ys], [int(i) for i in idx])
        ne, ev = table_rows(a)
        nb = len(sp) + 1
        if nb > 1:
            c.prove(all(ne[i] > 0 and ev[i] > 0 for i in range(nb)),
                    "bins have both classes")
        if kw.get("max_n_bins"):
            c.prove(nb <= kw["max_n_bins"], "number of bins")
        c.prove(a._bsketch.n == len(xs), "records are unchanged by solving")


def body_solve_cat(c, ncat, kw, hi, lo=0):
    """any counts of the categories"""
    exp = {}
    for i in range(ncat):
        a, b = c.int("n%d" % i, lo, hi), c.int("e%d" % i, lo, hi)
        c.assume(add(a, b) > 0)
        exp["k%d" % i] = [a, b]
    with patch.cut_metrics(c):
        ob = OptimalBinningSketch(dtype="categorical", special_codes=["s"],
                                  monotonic_trend=None, **kw)
        ob.add(np.array(["k0", None, None, "s"], dtype=object),
               np.array([0, 0, 1, 1]))
        ob._bsketch._d_categories = {t: list(v) for t, v in exp.items()}
        ob.solve()
        if not c.symbolic:
            status_ok(c, ob.status)
        c.cover("solved")
        bins = [[str(v) for v in b] for b in ob.splits]
        flat = [v for b in bins for v in b]
        c.prove(sorted(flat) == sorted(exp), "categories are partitioned")
        names = list(exp) + [None, "s"]
        idx = [int(i) for i in lst(ob.transform(
            np.array(names, dtype=object), metric="indices", **EMP))]
        recs, ix = [], []
        for t, j in zip(names, idx):
            for cl in (0, 1):
                w = exp[t][cl] if t in exp else (
                    1 if t is None or cl == 1 else 0)
                recs.append((cl, w))
                ix.append(j)
        check_tally(c, ob, recs, ix)
        ne, ev = table_rows(ob)
        nb = len(bins)
        if len(lst(ob._cat_others)):
            nb -= 1
            c.cover("others")
        if nb > 1:
            c.cover("split")
            for i in range(nb):
                c.prove(c.And([ne[i] > 0, ev[i] > 0]),
                        "bins have both classes")
            if kw.get("cat_heuristic"):
                c.prove(nb <= kw["max_n_prebins"], "max_n_prebins")


# -- binning process sketch --------------------------------------------------

class Recorder:
    made = None

    def __init__(self, **kw):
        self.kw = dict(kw)
        self.log = []
        self._is_solved = False
        Recorder.made.append(self)

    def set_params(self, **kw):
        self.kw.update(kw)
        return self

    def add(self, x, y, check_input=False):
        self.log.append(("add", lst(x), lst(y)))

    def merge(self, o):
        self.log.append(("merge", o))

    def solve(self):
        self.log.append(("solve",))

    def transform(self, x, **kw):
        self.log.append(("transform", kw))
        return np.zeros(len(x))


FORWARD = dict(max_n_prebins=7, min_n_bins=2, max_n_bins=5, min_bin_size=0.1,
               max_bin_size=0.4, max_pvalue=0.05, max_pvalue_policy="all",
               special_codes=[CODE], split_digits=3)


class using_obs:
    """replace the sketch class of a variable by the recorder"""

    def __enter__(self):
        self.old = BP.OptimalBinningSketch
        BP.OptimalBinningSketch = Recorder
        Recorder.made = []

    def __exit__(self, *a):
        BP.OptimalBinningSketch = self.old


def body_process(c, over):
    kw = dict(FORWARD)
    kw["min_bin_size"] = c.real("min_bin_size", 0.01, 0.5)
    kw["max_bin_size"] = c.real("max_bin_size", 0.5, 1)
    kw["max_pvalue"] = c.real("max_pvalue", 0.01, 1)
    pr = c.real("own", 0.01, 1)
    fit = {"b": {"max_pvalue": pr, "divergence": "js"}} if over else None
    tr = {"a": {"metric_special": 3, "metric_missing": "empirical"},
          "c": {"metric": "event_rate"}}
    with using_obs():
        def make():
            return BinningProcessSketch(
                ["a", "b", "c"], categorical_variables=["c"],
                binning_fit_params=fit, binning_transform_params=tr, **kw)
        p, q, r = make(), make(), make()
        X = pd.DataFrame({"c": ["u", "v"], "a": [1.0, 2.0],
                          "z": [0.0, 0.0]})
        y = np.array([0, 1])
        p.add(X, y)
        q.add(X.iloc[:1], y[:1])
        c.prove(len(Recorder.made) == 6, "one sketch per variable")
        for o in Recorder.made:
            nm = o.kw["name"]
            c.prove(o.kw["dtype"] == (
                "categorical" if nm == "c" else "numerical"), "dtype")
            for k, v in kw.items():
                e = v
                if over and nm == "b" and k == "max_pvalue":
                    e = pr
                g = o.kw.get(k)
                c.prove(c.eq(g, e) if isinstance(e, (int, float)) or
                        core.is_sym(e) else g == e, "parameter " + k)
            c.prove(o.kw.get("divergence") == (
                "js" if over and nm == "b" else None), "own parameter")
        a, b, cc = Recorder.made[:3]
        c.prove(a.log == [("add", [1.0, 2.0], [0, 1])]
                and cc.log == [("add", ["u", "v"], [0, 1])]
                and b.log == [], "columns are added to their variable")
        q.merge(p)
        c.prove(q._n_samples == 3 and q._n_add == 2,
                "merge adds the number of records")
        c.prove(p._n_samples == 2 and p._n_add == 1,
                "the merged process is unchanged")
        made = Recorder.made[3:6]
        c.prove(all(o.log[-1] == ("merge", m) for o, m in zip(
            made, [a, b, cc])), "every variable is merged with its own")
        r.merge(q)
        c.prove(r._n_samples == 3 and r._n_add == 2, "merge into empty")
        q.merge(make())
        c.prove(q._n_samples == 3 and q._n_add == 2, "merge of empty")
        # transform options of each variable
        p._is_solved = True
        p._support = np.array([True, True, True])
        ms, mm = c.real("special", -5, 5), c.real("missing", -5, 5)
        for cols in (["a", "b", "c"], ["c", "b", "a"]):
            Z = pd.DataFrame({k: ["u"] for k in cols})
            p.transform(Z, metric="woe", metric_special=ms,
                        metric_missing=mm)
            for o, me, s, m in ((a, "woe", 3, "empirical"),
                                (b, "woe", ms, mm),
                                (cc, "event_rate", ms, mm)):
                g = o.log[-1][1]
                c.prove(g["metric"] == me, "metric of variable")
                for u, v in ((g["metric_special"], s),
                             (g["metric_missing"], m)):
                    c.prove(u == v if isinstance(v, str) or
                            isinstance(u, str) else c.eq(u, v),
                            "transform option of variable")
    c.cover("ran")


def harnesses(tier):
    H = []

    def mk(name, f, bounds, cover, tier="quick", **kw):
        H.append(Harness(name, f, bounds, expect=cover, tier=tier,
                         timeout=700, **kw))
    for p in PROGRAMS:
        mk("numerical: " + p, lambda c, p=p: body_num(c, p, 3, False, 1),
           "3 records with any values and targets, any split", ("ran",),
           "quick" if p in ("argument used later", "twice", "chain",
                            "into empty, argument used later") else
           "thorough")
        mk("numerical, special and missing: " + p,
           lambda c, p=p: body_num(c, p, 3, True, 1),
           "3 records: any value, special or missing, any target", ("ran",),
           "quick" if p in ("pair", "from empty", "into empty")
           else "thorough")
        mk("categorical: " + p, lambda c, p=p: body_cat(c, p, 3, False),
           "3 records of 3 categories, any target", ("ran",),
           "quick" if p in ("argument used later", "both ways", "chain",
                            "into empty, argument used later") else
           "thorough")
        mk("categorical, special and missing: " + p,
           lambda c, p=p: body_cat(c, p, 3, True),
           "3 records of 2 categories, special or missing, any target",
           ("ran",), "quick" if p in ("pair", "from empty", "into empty")
           else "thorough")
    for eps, n, parts, t in (
            (0.05, 4, [4], "quick"), (0.05, 4, [2, 2], "quick"),
            (0.5, 4, [4], "quick"), (0.34, 4, [4], "quick"),
            (0.5, 4, [2, 2], "quick"), (0.5, 4, [3, 1], "quick"),
            (0.34, 5, [5], "thorough"), (0.5, 5, [5], "thorough"),
            (0.5, 5, [3, 2], "thorough"), (0.5, 5, [2, 3], "thorough"),
            (0.34, 5, [4, 1], "thorough"), (0.25, 6, [6], "thorough"),
            (0.4, 6, [3, 3], "thorough"),
            (0.05, 5, [2, 2, 1], "thorough")):
        mk("summary eps={} {}".format(eps, parts),
           lambda c, a=(eps, n, parts): body_gk(c, *a),
           "every {} values".format(n),
           ("built",) + (("compressed",) if eps > 0.2 else ()), t)
    for eps, n, free, parts, pre, t in (
            (0.4, 7, 2, [7], "zigzag", "quick"),
            (0.4, 7, 2, [5, 2], "zigzag", "quick"),
            (0.34, 8, 2, [8], "zigzag", "quick"),
            (0.34, 8, 2, [6, 2], "zigzag", "quick"),
            (0.34, 8, 2, [5, 3], "zigzag", "quick"),
            (0.34, 8, 2, [4, 4], "up", "quick"),
            (0.25, 10, 2, [6, 2, 2], "down", "quick"),
            (0.4, 7, 3, [7], "down", "quick"),
            (0.45, 7, 3, [5, 2], "zigzag", "quick"),
            (0.34, 8, 3, [5, 3], "zigzag", "quick"),
            (0.3, 9, 3, [9], "up", "thorough"),
            (0.3, 9, 3, [6, 3], "down", "thorough"),
            (0.25, 10, 3, [7, 3], "zigzag", "thorough"),
            (0.25, 12, 2, [4, 4, 4], "zigzag", "quick"),
            (0.2, 14, 2, [7, 7], "zigzag", "quick"),
            (0.1, 30, 2, [10, 10, 10], "zigzag", "thorough"),
            (0.2, 20, 2, [20], "down", "thorough"),
            (0.15, 24, 2, [8, 8, 8], "up", "thorough")):
        mk("summary eps={} {} {} of {} free".format(eps, parts, free, n),
           lambda c, a=(eps, n, parts, pre, free): body_gk(c, *a),
           "given first records ({}), then every {} values".format(pre, free),
           ("built", "compressed"), t)
    mk("category counts, cutoff", lambda c: body_cutoff(c, 2, 20),
       "2 categories with counts in [0,20] and a third one", ("ran",))
    for nm, kw, n, mixed, prog, t in (
            ("max 2 prebins", dict(max_n_prebins=2), 3, True, None, "quick"),
            ("max 3 prebins", dict(max_n_prebins=3), 4, False, "merge",
             "quick"),
            ("max 4 prebins", dict(max_n_prebins=4), 4, True, None,
             "thorough"),
            ("max 4 prebins, 5", dict(max_n_prebins=4), 5, False, None,
             "thorough"),
            ("merge into empty", dict(max_n_prebins=3), 3, True,
             "merge into empty", "quick"),
            ("rounded", dict(max_n_prebins=3, split_digits=0), 3, False,
             None, "quick"),
            ("hellinger", dict(max_n_prebins=3, divergence="hellinger"), 4,
             True, None, "quick"),
            ("triangular mip", dict(max_n_prebins=3, solver="mip",
                                    divergence="triangular"), 4, False,
             None, "thorough"),
            ("max_n_bins", dict(max_n_prebins=4, max_n_bins=2), 4, False,
             None, "thorough")):
        kw = dict(kw)
        kw.setdefault("monotonic_trend", None)
        mk("solve " + nm, lambda c, a=(n, kw, mixed, prog): body_solve(c, *a),
           "{} records with any value and target".format(n),
           ("solved",) + (("split",) if n > 3 else ()), t, weight=5)
    for nm, kw, n, t in (
            ("", {}, 3, "quick"),
            ("hellinger", dict(divergence="hellinger"), 3, "quick"),
            ("heuristic", dict(cat_heuristic=True, max_n_prebins=2), 3,
             "quick"),
            ("heuristic triangular", dict(
                cat_heuristic=True, max_n_prebins=2,
                divergence="triangular"), 3, "quick"),
            ("cutoff", dict(cat_cutoff=0.2), 3, "thorough"),
            ("four", {}, 4, "thorough"),
            ("four heuristic", dict(cat_heuristic=True, max_n_prebins=3), 4,
             "thorough")):
        mk("solve categorical " + nm,
           lambda c, a=(n, kw): body_solve_cat(c, a[0], a[1], 20),
           "{} categories, counts in [0,20]".format(n),
           ("solved", "split"), t)
    for over in (False, True):
        mk("process sketch own={}".format(over),
           lambda c, o=over: body_process(c, o),
           "any parameter values, 3 variables", ("ran",))
    return H
