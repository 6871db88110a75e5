"""C23: parameters outside of their domain are rejected, others accepted."""

from optbinning import (BinningProcess, ContinuousOptimalBinning,
                        ContinuousOptimalBinning2D,
                        ContinuousOptimalPWBinning, MDLP,
                        MulticlassOptimalBinning, OptimalBinning,
                        OptimalBinning2D, OptimalPWBinning)
from optbinning.binning.distributed import (BCatSketch, BinningProcessSketch,
                                            BSketch, OptimalBinningSketch)
from optbinning.binning.uncertainty import SBOptimalBinning
from optbinning.scorecard import Counterfactual, Scorecard, ScorecardMonitoring

import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression

from .lib import *

ASSUMPTIONS = ["validation is considered passed when the data is first read",
               "booleans given as numbers and NaN are not considered"]


class Read(BaseException):
    """the data was touched: validation passed"""


class Probe:
    """data that may not be looked at"""

    def _touch(self, *a, **k):
        raise Read()

    __len__ = __iter__ = __array__ = __getitem__ = __eq__ = __ne__ = _touch
    __hash__ = None

    def __getattr__(self, name):
        raise Read()


# domains: (integer, low, low allowed, high, high allowed, None allowed)
POS = (True, 1, True, None, True, True)
HALF = (False, 0, False, 0.5, True, False)
HALFN = HALF[:5] + (True,)
UNIT = (False, 0, False, 1, True, True)
CUNIT = (False, 0, True, 1, True, False)
NONNEG = (False, 0, True, None, True, False)
DIGITS = (True, 0, True, 8, True, True)
NPRE = (True, 2, True, None, True, False)
EPS = (False, 0, False, 1, True, False)
NUM = (False, None, True, None, True, False)

TRENDS = ["auto", "auto_heuristic", "auto_asc_desc", "ascending",
          "descending", "convex", "concave", "peak", "valley",
          "peak_heuristic", "valley_heuristic", None]
BASE = dict(min_n_bins=POS, max_n_bins=POS, min_bin_size=HALFN,
            max_bin_size=UNIT, split_digits=DIGITS)
PRE = dict(max_n_prebins=NPRE, min_prebin_size=HALF)
EV = dict(min_bin_n_event=POS, max_bin_n_event=POS, min_bin_n_nonevent=POS,
          max_bin_n_nonevent=POS)
PV = dict(max_pvalue=UNIT)
POLICY = dict(max_pvalue_policy=["all", "consecutive"])
FLAGS = dict(verbose=[True, False])
MIP = dict(mip_solver=["bop", "cbc"])
DTYPE = dict(dtype=["numerical", "categorical"])
DIV = dict(divergence=["iv", "js", "hellinger", "triangular"])
PAIRS = [("min_n_bins", "max_n_bins", True, 1, 50),
         ("min_bin_size", "max_bin_size", False, 0.01, 0.5)]
PAIRS_EV = PAIRS + [("min_bin_n_event", "max_bin_n_event", True, 1, 50),
                    ("min_bin_n_nonevent", "max_bin_n_nonevent", True, 1,
                     50)]


def fit(cls, *args, **fix):
    def run(kw):
        o = cls(*args, **fix, **kw)
        o.fit(*([Probe()] * fix_n(cls)))
        return o
    return run


def fix_n(cls):
    return 3 if "2D" in cls.__name__ else 2


def new(cls, *args, **fix):
    return lambda kw: cls(*args, **fix, **kw)


def sb(kw):
    o = SBOptimalBinning(**kw)
    o.fit([Probe()], [Probe()])
    return o


def monitoring(kw):
    sc = Scorecard(BinningProcess(["a"]), LogisticRegression())
    sc._is_fitted = True
    o = ScorecardMonitoring(scorecard=sc, **kw)
    o.fit(Probe(), Probe(), Probe(), Probe())
    return o


def process(kw):
    o = BinningProcess(["a"], **kw)
    o.fit(pd.DataFrame({"a": [0, 1]}), Probe())
    return o


def mdlp(kw):
    o = MDLP(**kw)
    o.fit(Probe(), Probe())
    return o


class ReadBP(BinningProcess):
    """binning process: asked for data, so validation passed"""

    def _touch(self, *a, **k):
        raise Read()

    fit = transform = fit_transform = _touch


FITTED = {}


def explainers():
    """fitted counterfactual explainers (no symbolic values involved)"""
    if FITTED:
        return
    rng = np.random.RandomState(0)
    X = pd.DataFrame({"a": rng.rand(60), "b": rng.rand(60)})
    for tg, y, est in (
            ("binary", (X.a + X.b + rng.rand(60) > 1.5).astype(int),
             LogisticRegression()),
            ("continuous", X.a + 2 * X.b + rng.rand(60), LinearRegression())):
        bp = BinningProcess(["a", "b"])
        sc = Scorecard(binning_process=bp, estimator=est).fit(X, y)
        FITTED[tg] = Counterfactual(scorecard=sc).fit(X)
        sc.binning_process_ = ReadBP(["a", "b"])


def generate(fix):
    """validation of the parameters of Counterfactual.generate"""
    def run(kw):
        d = dict(query={"a": 0.5, "b": 0.5}, y=1, outcome_type="binary",
                 n_cf=1)
        d.update(fix)
        d.update(kw)
        tg = "continuous" if d["outcome_type"] == "continuous" else "binary"
        FITTED[tg].generate(**d)
    return run


def objective(k):
    return lambda kw: generate({})(dict(objectives={k: kw["value"]}))


def soft(k, o):
    return lambda kw: generate(dict(y=0.5, outcome_type=o))(
        dict(soft_constraints={"diff_outcome": 1, k: kw["value"]}))


def scaling(method, rounding=False, **fix):
    X = pd.DataFrame({"a": [0.0, 1.0, 2.0, 3.0]})

    def run(kw):
        d = dict(fix)
        d.update(kw)
        Scorecard(binning_process=ReadBP(["a"]),
                  estimator=LogisticRegression(), scaling_method=method,
                  scaling_method_params=d, rounding=rounding).fit(
                      X, [0, 1, 0, 1])
    return run


POSR = (False, 0, False, None, True, False)

BIN = dict(PRE, **BASE, **EV, **PV, min_event_rate_diff=CUNIT, gamma=NONNEG,
           time_limit=NONNEG, cat_cutoff=UNIT)
TARGETS = {
    "OptimalBinning": (fit(OptimalBinning), BIN, dict(
        DTYPE, **DIV, **POLICY, **MIP, **FLAGS, monotonic_trend=TRENDS,
        prebinning_method=["cart", "mdlp", "quantile", "uniform"],
        solver=["cp", "ls", "mip"],
        outlier_detector=[None, "range", "zscore"],
        class_weight=[None, "balanced"]), PAIRS_EV),
    "ContinuousOptimalBinning": (fit(ContinuousOptimalBinning), dict(
        PRE, **BASE, **PV, min_mean_diff=NONNEG, gamma=NONNEG,
        time_limit=NONNEG, cat_cutoff=UNIT), dict(
        DTYPE, **POLICY, **FLAGS, monotonic_trend=TRENDS,
        prebinning_method=["cart", "quantile", "uniform"],
        outlier_detector=[None, "range", "zscore", "yquantile"]), PAIRS),
    "MulticlassOptimalBinning": (fit(MulticlassOptimalBinning), dict(
        PRE, **BASE, **PV, min_event_rate_diff=CUNIT, time_limit=NONNEG),
        dict(POLICY, **MIP, **FLAGS, solver=["cp", "mip"],
             monotonic_trend=["auto", "auto_heuristic", "auto_asc_desc",
                              None],
             prebinning_method=["cart", "quantile", "uniform"],
             outlier_detector=[None, "range", "zscore"]), PAIRS),
    "SBOptimalBinning": (sb, dict(
        PRE, **BASE, **PV, min_event_rate_diff=CUNIT, time_limit=NONNEG),
        dict(POLICY, **FLAGS, prebinning_method=[
            "cart", "quantile", "uniform"], monotonic_trend=[
            "ascending", "descending", "convex", "concave", "peak",
            "valley", None]), PAIRS),
    "OptimalBinning2D": (fit(OptimalBinning2D), dict(
        BASE, **EV, max_n_prebins_x=NPRE, max_n_prebins_y=NPRE,
        min_prebin_size_x=HALF, min_prebin_size_y=HALF,
        min_event_rate_diff_x=CUNIT, min_event_rate_diff_y=CUNIT,
        gamma=NONNEG, time_limit=NONNEG), dict(
        DIV, **FLAGS, dtype_x=DTYPE["dtype"], dtype_y=DTYPE["dtype"],
        prebinning_method=["cart", "mdlp", "quantile", "uniform"],
        strategy=["grid", "cart"], solver=["cp", "mip"],
        monotonic_trend_x=["ascending", "descending", None],
        monotonic_trend_y=["ascending", "descending", None]), PAIRS_EV),
    "ContinuousOptimalBinning2D": (fit(ContinuousOptimalBinning2D), dict(
        BASE, max_n_prebins_x=NPRE, max_n_prebins_y=NPRE,
        min_prebin_size_x=HALF, min_prebin_size_y=HALF, min_mean_diff_x=NUM,
        min_mean_diff_y=NUM, gamma=NONNEG, time_limit=NONNEG), dict(
        FLAGS, dtype_x=DTYPE["dtype"], dtype_y=DTYPE["dtype"],
        strategy=["grid", "cart"], solver=["cp", "mip"],
        monotonic_trend_x=["ascending", "descending", None],
        monotonic_trend_y=["ascending", "descending", None]), PAIRS),
    "OptimalPWBinning": (fit(OptimalPWBinning), dict(
        PRE, **BASE, **PV, degree=(True, 0, True, 5, True, False),
        n_subsamples=POS, h_epsilon=(False, 1, True, None, True, False),
        quantile=(False, 0, False, 1, False, False), reg_l1=NONNEG,
        reg_l2=NONNEG), dict(
        POLICY, **FLAGS, objective=["l1", "l2", "huber", "quantile"],
        continuous=[True, False], regularization=[None, "l1", "l2"],
        prebinning_method=["cart", "quantile", "uniform"],
        monotonic_trend=["auto", "ascending", "descending", "convex",
                         "concave", "peak", "valley", None]), PAIRS),
    "ContinuousOptimalPWBinning": (fit(ContinuousOptimalPWBinning), dict(
        PRE, **BASE, **PV, degree=(True, 0, True, 5, True, False),
        n_subsamples=POS, h_epsilon=(False, 1, True, None, True, False),
        quantile=(False, 0, False, 1, False, False), reg_l1=NONNEG,
        reg_l2=NONNEG), dict(POLICY, objective=[
            "l1", "l2", "huber", "quantile"]), PAIRS),
    "BinningProcess": (process, dict(PRE, **BASE, **PV), dict(
        POLICY, **FLAGS), PAIRS),
    "OptimalBinningSketch": (new(OptimalBinningSketch), dict(
        BASE, **EV, **PV, max_n_prebins=NPRE, eps=EPS,
        K=POS[:5] + (False,), min_event_rate_diff=CUNIT, gamma=NONNEG,
        time_limit=NONNEG, cat_cutoff=UNIT), dict(
        DTYPE, **DIV, **POLICY, **MIP, **FLAGS, sketch=["gk", "t-digest"],
        solver=["cp", "mip"], cat_heuristic=[True, False],
        monotonic_trend=TRENDS), PAIRS_EV),
    "BinningProcessSketch": (new(BinningProcessSketch, ["a"]), dict(
        BASE, **PV, max_n_prebins=NPRE), dict(POLICY, **FLAGS), PAIRS),
    "BSketch": (new(BSketch), dict(
        eps=EPS, K=POS[:5] + (False,)),
        dict(sketch=["gk", "t-digest"]), []),
    "BCatSketch": (new(BCatSketch), dict(cat_cutoff=UNIT), {}, []),
    "MDLP": (mdlp, dict(
        min_samples_split=(True, 2, True, None, True, False),
        min_samples_leaf=(True, 1, True, None, True, False),
        max_candidates=(True, 1, True, None, True, False)), {}, []),
    "ScorecardMonitoring": (monitoring, dict(
        psi_n_bins=POS, psi_min_bin_size=HALFN,
        show_digits=DIGITS[:5] + (False,)), dict(
        FLAGS, psi_method=["uniform", "quantile", "cart"]), []),
    "Counterfactual.generate": (generate({}), dict(
        n_cf=(True, 1, True, None, True, False), max_changes=POS,
        priority_tol=CUNIT, time_limit=POSR), dict(
        outcome_type=["binary"], method=["weighted", "hierarchical"]), []),
    "Counterfactual.generate probability": (generate(dict(
        outcome_type="probability", hard_constraints=["min_outcome"])), dict(
        y=CUNIT), dict(
        hard_constraints=[("min_outcome",), ("max_outcome",),
                          ("diversity_values", "min_outcome")]), []),
    "Counterfactual.generate objectives": (objective("proximity"), dict(
        value=POSR), {}, []),
    "Counterfactual.generate objectives 2": (objective("closeness"), dict(
        value=POSR), {}, []),
    "Counterfactual.generate soft": (soft("diff_outcome", "probability"),
                                     dict(value=POSR), {}, []),
    "Counterfactual.generate soft 2": (soft("diversity_values", "continuous"),
                                       dict(value=POSR), {}, []),
    "scaling pdo": (scaling("pdo_odds", pdo=20, odds=50, scorecard_points=600),
                    dict(pdo=POSR, odds=POSR, scorecard_points=POSR), {}, []),
    "scaling min_max": (scaling("min_max", min=0, max=1), {}, {}, [
        ("min", "max", False, -50, 50)]),
    "scaling min": (scaling("min_max", max=1000), dict(min=NUM), {}, []),
}


def inside(c, v, d):
    integer, lo, lc, hi, hc, none = d
    r = []
    if lo is not None:
        r.append(v >= lo if lc else v > lo)
    if hi is not None:
        r.append(v <= hi if hc else v < hi)
    return c.And(r)


def attempt(run, kw):
    """(accepted, object)"""
    try:
        return True, run(kw)
    except Read:
        return True, None
    except (ValueError, TypeError) as e:
        return False, e


def body_num(c, run, name, d):
    c.meta["hash_id"] = True
    kind = c.choice("kind", ["int", "real", "none", "str"])
    if kind == "int":
        v = c.int("v", -20, 60)
        ok = inside(c, v, d)
    elif kind == "real":
        v = c.real("v", -5, 60)
        ok = False if d[0] else inside(c, v, d)
    elif kind == "none":
        v, ok = None, d[5]
    else:
        v, ok = "x", False
    acc, o = attempt(run, {name: v})
    c.cover("accepted" if acc else "rejected")
    c.prove(ok if acc else c.Not(ok),
            "{} is {} only if it is {} its domain".format(
                name, "accepted" if acc else "rejected",
                "in" if acc else "outside of"))


def body_enum(c, run, name, allowed):
    bad = ["zzz", 3, None]
    opts = list(allowed) + [b for b in bad if b not in allowed]
    v = c.choice("v", list(range(len(opts))))
    v = opts[int(v)]
    acc, o = attempt(run, {name: list(v) if isinstance(v, tuple) else v})
    c.cover("accepted" if acc else "rejected")
    c.prove(acc == any(v is a or v == a for a in allowed),
            "{}: exactly the documented values are accepted".format(name))


def body_pair(c, run, lo, hi, integer, a, b):
    f = c.int if integer else c.real
    u, v = f("lo", a, b), f("hi", a, b)
    acc, o = attempt(run, {lo: u, hi: v})
    c.cover("accepted" if acc else "rejected")
    c.prove(u <= v if acc else u > v,
            "limits are accepted only if they are ordered")


def body_stored(c, cls, nums):
    """constructors store what they are given"""
    kw = {}
    for n, d in nums.items():
        f = c.int if d[0] else c.real
        lo = 0 if d[1] is None else d[1]
        hi = 100 if d[3] is None else d[3]
        kw[n] = f(n, lo, hi)
        c.assume(inside(c, kw[n], d))
    for lo, hi in (("min_n_bins", "max_n_bins"),
                   ("min_bin_size", "max_bin_size"),
                   ("min_bin_n_event", "max_bin_n_event"),
                   ("min_bin_n_nonevent", "max_bin_n_nonevent")):
        if lo in kw and hi in kw:
            c.assume(kw[lo] <= kw[hi])
    o = cls(**kw)
    p = o.get_params()
    try:
        if cls is SBOptimalBinning:
            o.fit([Probe()], [Probe()])
        elif hasattr(o, "fit"):
            o.fit(*([Probe()] * (3 if "2D" in cls.__name__ else 2)))
    except Read:
        pass
    q = o.get_params()
    for n, v in kw.items():
        c.prove(c.And([c.eq(p[n], v), c.eq(q[n], v)]),
                "parameter {} is stored unchanged".format(n))
    c.cover("accepted")


CLASSES = [OptimalBinning, ContinuousOptimalBinning,
           MulticlassOptimalBinning, SBOptimalBinning, OptimalBinning2D,
           ContinuousOptimalBinning2D, OptimalPWBinning,
           ContinuousOptimalPWBinning, OptimalBinningSketch]


def harnesses(tier):
    explainers()
    H = []
    for t, (run, nums, enums, pairs) in TARGETS.items():
        for n, d in nums.items():
            H.append(Harness(
                "{} {}".format(t, n),
                lambda c, a=(run, n, d): body_num(c, *a),
                "any integer in [-20,60], any real in [-5,60], None, string",
                expect=("accepted", "rejected")))
        for n, al in enums.items():
            H.append(Harness(
                "{} {}".format(t, n),
                lambda c, a=(run, n, al): body_enum(c, *a),
                "the documented values and three others",
                expect=("accepted", "rejected")))
        for lo, hi, i, a, b in pairs:
            H.append(Harness(
                "{} {} {}".format(t, lo, hi),
                lambda c, a=(run, lo, hi, i, a, b): body_pair(c, *a),
                "any pair in [{},{}]".format(a, b),
                expect=("accepted", "rejected")))
    for k in CLASSES:
        H.append(Harness(
            k.__name__ + " stores", lambda c, k=k: body_stored(
                c, k, TARGETS[k.__name__][1]),
            "any valid value of every numeric parameter",
            expect=("accepted",)))
    return H
