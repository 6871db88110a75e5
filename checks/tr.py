"""Transform harness bodies (binary, continuous, multiclass targets)."""

import numpy as np

from optbinning import ContinuousOptimalBinning
from optbinning import MulticlassOptimalBinning
from optbinning import OptimalBinning
from optbinning.binning.uncertainty import SBOptimalBinning

from symex import core, patch
from .lib import *

SPECIAL = {
    None: (None, []),
    "list": ([-9.0, -8.0], [(-9.0, 0), (-8.0, 0)]),
    "dict": ({"A": -9.0, "B": [-8.0, -7.0]},
             [(-9.0, 0), (-8.0, 1), (-7.0, 1)]),
}


def n_special(kind):
    return 2 if kind == "dict" else 1


def train(c, target, splits, special, missing=True, counts=True, hi=100):
    """training records: every interval, every special code, missing.
    binary: symbolic record weights; continuous: symbolic target values;
    multiclass: symbolic split of the records is not available (no weights),
    classes are concrete."""
    s = list(splits)
    pts = [s[0] - 1.0] + [(a + b) / 2 for a, b in zip(s, s[1:])] + \
        [s[-1] + 1.0] if s else [0.0]
    codes = [v for v, _ in SPECIAL[special][1]]
    xs = pts + codes + ([nan()] if missing else [])
    kw = dict(user_splits=s)
    kw["special_codes"] = SPECIAL[special][0]
    if target == "binary":
        x, y, w = [], [], []
        for i, v in enumerate(xs):
            clean = i < len(pts)
            x += [v, v]
            y += [0, 1]
            kind = "clean" if clean else \
                "missing" if missing and i == len(xs) - 1 else "special"
            lo = 1 if clean else 0
            on = counts is True or kind == counts
            w += [c.int("n%d" % i, lo, hi), c.int("e%d" % i, lo, hi)] \
                if on else [2 + i, 3]
        ob = OptimalBinning(monotonic_trend=None, divergence="triangular",
                            user_splits_fixed=[True] * len(s) if s else None,
                            **kw)
        ob.fit(np.array(x), np.array(y), sample_weight=arr(c, w))
    elif target == "continuous":
        x, y = [], []
        for i, v in enumerate(xs):
            x += [v] if counts == "single" else [v, v]
            y += [c.real("y%d" % i, -hi, hi), 1.0 + i][:1 + (
                counts != "single")] if counts else [float(i), 1.0 + i]
        ob = ContinuousOptimalBinning(
            monotonic_trend=None,
            user_splits_fixed=[True] * len(s) if s else None, **kw)
        ob.fit(np.array(x), arr(c, y))
    elif target == "scenario":
        X, Y = [], []
        for t in range(2):
            x, y = [], []
            for i, v in enumerate(xs):
                for k in range(2):
                    n = 1 + (i * (k + 2) + t) % 3
                    x += [v] * n
                    y += [k] * n
            X.append(np.array(x))
            Y.append(np.array(y))
        ob = SBOptimalBinning(monotonic_trend=None,
                              user_splits_fixed=[True] * len(s) if s else None,
                              **kw)
        ob.fit(X, Y)
    else:
        x, y = [], []
        for i, v in enumerate(xs):
            for k in range(3):
                for _ in range(1 + (i * (k + 2)) % 3):
                    x.append(v)
                    y.append(k)
        kw.pop("special_codes")
        ob = MulticlassOptimalBinning(
            monotonic_trend=None, special_codes=SPECIAL[special][0],
            user_splits_fixed=[True] * len(s) if s else None, **kw)
        ob.fit(np.array(x), np.array(y))
    return ob


KINDS = ["v", "nan", "s0", "s1", "s2"]


def records(c, special, n, lo=-100, hi=100):
    """n symbolic records; each is a value, a special code or missing"""
    codes = SPECIAL[special][1]
    opts = ["v", "nan"] + ["s%d" % i for i in range(len(codes))]
    rec = []
    for i in range(n):
        k = c.choice("kind%d" % i, opts) if i else "v"
        if k == "v":
            v = c.real("x%d" % i, lo, hi)
            for code, _ in codes:
                c.assume(core.s_ne(v, code))
            rec.append(("v", v))
        elif k == "nan":
            rec.append(("nan", nan()))
        else:
            code, g = codes[int(k[1:])]
            rec.append(("s", code, g))
    return rec


def in_bin(c, v, splits, i):
    a = True if i == 0 else core.s_le(splits[i - 1], v)
    b = True if i == len(splits) else core.s_lt(v, splits[i])
    return c.And(a, b)


def check_out(c, out, rec, splits, values, spec_val, miss_val, label, eq):
    """out[j] == values[bin of rec j]"""
    out = lst(out)
    c.prove(len(out) == len(rec), "one output per record")
    for o, r in zip(out, rec):
        if r[0] == "v":
            for i in range(len(splits) + 1):
                b = in_bin(c, r[1], splits, i)
                if b is False:
                    continue
                c.prove(c.Or(c.Not(b), eq(o, values[i])),
                        "%s of a regular value" % label)
        elif r[0] == "nan":
            c.prove(eq(o, miss_val), "%s of a missing value" % label)
        else:
            c.prove(eq(o, spec_val[r[2]]), "%s of a special value" % label)


METRICS = {"binary": ["woe", "event_rate"],
           "scenario": ["woe", "event_rate"], "continuous": ["mean"],
           "multiclass": ["mean_woe", "weighted_mean_woe"]}
COLS = {"woe": "WoE", "event_rate": "Event rate", "mean": "Mean"}


def body_route(c, target="binary", splits=(0.0, 2.5), special=None, n=2,
               counts=False):
    ob = train(c, target, splits, special, counts=counts)
    sp = [float(s) for s in lst(ob.splits)]
    c.prove(len(sp) == len(splits) and
            all(abs(a - b) < 1e-9 for a, b in zip(sp, splits)),
            "all requested splits are kept")
    rec = records(c, special, n)
    x = arr(c, [r[1] for r in rec])
    nb, ns = len(sp) + 1, n_special(special)
    metric = c.choice("metric", ["indices", "bins", "indices default"])
    df = ob.binning_table.build()
    c.cover(metric)
    if metric == "indices":
        out = ob.transform(x, metric="indices", metric_special="empirical",
                           metric_missing="empirical")
        check_out(c, out, rec, sp, list(range(nb)),
                  [nb + i for i in range(ns)], nb + ns, "index",
                  lambda a, b: c.same(a, b))
    elif metric == "bins":
        out = ob.transform(x, metric="bins")
        names = lst(df["Bin"])[:nb + ns + 1]
        exp = []
        lo = ["-inf"] + ["%.2f" % s for s in sp]
        hi = ["%.2f" % s for s in sp] + ["inf"]
        for i in range(nb):
            exp.append("%s%s, %s)" % ("(" if i == 0 else "[", lo[i], hi[i]))
        exp += list(SPECIAL[special][0]) if special == "dict" else ["Special"]
        exp += ["Missing"]
        c.prove(names == exp, "bin labels of the table")
        check_out(c, out, rec, sp, exp[:nb], exp[nb:nb + ns], exp[-1],
                  "label", lambda a, b: a == b)
    else:
        out = ob.transform(x, metric="indices", metric_special=7,
                           metric_missing=8)
        check_out(c, out, rec, sp, list(range(nb)), [7] * ns, 8, "index",
                  lambda a, b: c.same(a, b))


def body_values(c, target="binary", splits=(0.0,), special=None, counts=True,
                modes=("empirical", "value", "mixed"), hi=100):
    """transformed values are those of the binning table"""
    with patch.cut_metrics(c):
        _body_values(c, target, splits, special, counts, modes, hi)


def _body_values(c, target, splits, special, counts, modes, hi):
    c.meta["lazy"] = True
    rec = [("v", c.real("x", -hi, hi)), ("nan", nan())]
    rec += [("s",) + p for p in SPECIAL[special][1]]
    for code, _ in SPECIAL[special][1]:
        c.assume(core.s_ne(rec[0][1], code))
    x = arr(c, [r[1] for r in rec])
    ob = train(c, target, splits, special, hi=hi, counts=counts)
    sp = [float(s) for s in lst(ob.splits)]
    nb, ns = len(sp) + 1, n_special(special)
    df = ob.binning_table.build()
    for metric in METRICS[target]:
        if metric in COLS:
            vals = lst(df[COLS[metric]])[:nb + ns + 1]
            vals = [v if core.is_sym(v) else float(v) for v in vals]
        else:
            woe = multiclass_woe(df, nb + ns + 1)
            if metric == "mean_woe":
                vals = [float(np.mean(r)) for r in woe]
            else:
                te = [float(np.sum([float(v) for v in lst(
                    df["Event_%d" % k])[:nb + ns + 1]])) for k in range(3)]
                vals = [float(np.average(r, weights=te)) for r in woe]
        for mode in modes:
            sv, mv = [1.5] * ns, -2.5
            kw = dict(metric_special=1.5, metric_missing=-2.5)
            if mode in ("empirical", "mixed"):
                kw["metric_special"] = "empirical"
                sv = vals[nb:nb + ns]
            if mode == "empirical":
                kw["metric_missing"] = "empirical"
                mv = vals[-1]
            out = ob.transform(x, metric=metric, **kw)
            check_out(c, out, rec, sp, vals[:nb], sv, mv, metric, c.near)
            c.cover(mode)
    # default metric is the first one
    out = ob.transform(x)
    base = ob.transform(x, metric=METRICS[target][0])
    for a, b in zip(lst(out), lst(base)):
        c.prove(c.eq(a, b), "default metric")


def multiclass_woe(df, nrows):
    """one-vs-rest WoE of every row from the event counts of the table"""
    ev = [[float(v) for v in lst(df["Event_%d" % k])[:nrows]]
          for k in range(3)]
    tot = [sum(ev[k][i] for k in range(3)) for i in range(nrows)]
    T = sum(tot)
    out = []
    for i in range(nrows):
        row = []
        for k in range(3):
            e, ne = ev[k][i], tot[i] - ev[k][i]
            te = sum(ev[k])
            row.append(np.log(ne / e * te / (T - te))
                       if e > 0 and ne > 0 else 0.0)
        out.append(row)
    return out
