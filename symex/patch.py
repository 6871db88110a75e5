"""Run the real optbinning modules against the symbolic stand-ins.

No source is rewritten: while a symbolic exploration is active the module
globals that name numpy, pandas, scipy, sklearn validators and OR-Tools are
bound to the stand-ins; the functions executed are the very function objects
imported from /repo.
"""

import builtins
import contextlib
import importlib
import pkgutil
import sys
import warnings

import numpy as np

from . import core, npx, ortx
from .core import Sym, Unsupported

_STATE = {"depth": 0, "on": False, "saved": None, "table": None}


def load_all():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import optbinning
        for m in pkgutil.walk_packages(optbinning.__path__, "optbinning."):
            if ".ls" in m.name and m.name.endswith(".ls"):
                continue
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass


# -- stand-ins for library functions ----------------------------------------
def _check_array(a, *args, **kw):
    from sklearn.utils import check_array
    if isinstance(a, (npx.SymArray, npx.SymSeries)):
        v = a.values if isinstance(a, npx.SymSeries) else a
        dt = kw.get("dtype")
        if kw.get("ensure_2d", True) and v.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead")
        if v.size == 0 and kw.get("ensure_min_samples", 1):
            raise ValueError("Found array with 0 sample(s)")
        if kw.get("force_all_finite", kw.get("ensure_all_finite",
                                             True)) is True:
            for e in v._raw().ravel().tolist():
                if not isinstance(e, Sym) and core.is_nonfinite(e):
                    raise ValueError("Input contains NaN.")
        if dt in (np.float64, float) or dt is npx.SymFloat:
            return v.astype(float)
        return v
    if isinstance(a, np.ndarray) or not core.has_sym(a):
        return npx._rewrap(check_array(a, *args, **kw))
    return npx.wrap(a)


def _check_consistent_length(*a):
    ls = {len(x) for x in a if x is not None}
    if len(ls) > 1:
        raise ValueError("Found input variables with inconsistent numbers of "
                         "samples: %r" % list(ls))


def _check_sample_weight(w, X, dtype=None, copy=False, **k):
    n = len(X)
    if w is None:
        return npx.NP.ones(n)
    if isinstance(w, (int, float, Sym)):
        return npx.NP.full(n, w)
    w = npx.wrap(w)
    if len(w) != n:
        raise ValueError("sample_weight.shape mismatch")
    return w.copy() if copy else w


def _compute_class_weight(class_weight, *, classes, y):
    from sklearn.utils import compute_class_weight
    y = npx.plain(y)
    return npx.wrap(compute_class_weight(
        class_weight, classes=npx.plain(classes), y=y))


def _type_of_target(y, *a, **k):
    from sklearn.utils.multiclass import type_of_target
    if core.has_sym(y):
        c = core.cur()
        t = c.meta.get("type_of_target")
        if t is None:
            raise Unsupported("type_of_target of symbolic data")
        return t
    return type_of_target(npx.plain(y), *a, **k)


class StatsProxy:
    """CDFs and tests are uninterpreted functions of their arguments."""

    def __init__(self):
        from scipy import stats
        self._s = stats

    def __getattr__(self, n):
        real = getattr(self._s, n)
        if n in ("norm", "chi2", "t", "beta"):
            return _Dist(n, real)
        if not callable(real):
            return real

        def f(*a, **k):
            if not core.has_sym(list(a)) and not core.has_sym(
                    list(k.values())):
                return npx._rewrap(real(*npx._deep_conc(list(a)),
                                        **npx._deep_conc(k)))
            return _SYMSTATS[n](*a, **k) if n in _SYMSTATS else _unsup(n)
        return f


def _unsup(n):
    raise Unsupported("scipy.stats." + n)


def _chi2c(obs, correction=True, **k):
    c = core.cur()
    raw = npx.to_obj(obs)
    args = raw.ravel().tolist()
    t = c.uf("chi2_t{}_{}".format(len(args), int(bool(correction))), *args)
    p = c.uf("chi2_p{}_{}".format(len(args), int(bool(correction))), *args)
    return t, p, None, None


def _ttest(mean1, std1, nobs1, mean2, std2, nobs2, equal_var=True, **k):
    c = core.cur()
    args = [mean1, std1, nobs1, mean2, std2, nobs2]
    args = [0.0 if core.is_nonfinite(a) else a for a in args]
    tag = str(int(bool(equal_var)))
    return (c.uf("tt_t" + tag, *args), c.uf("tt_p" + tag, *args))


def _fisher(obs, *a, **k):
    c = core.cur()
    args = npx.to_obj(obs).ravel().tolist()
    return c.uf("fish_o", *args), c.uf("fish_p", *args)


_SYMSTATS = {"chi2_contingency": _chi2c, "ttest_ind_from_stats": _ttest,
             "fisher_exact": _fisher}


class _Dist:
    def __init__(self, name, real):
        self._n = name
        self._r = real

    def __call__(self, *a, **k):
        if not core.has_sym(list(a)):
            return self._r(*npx._deep_conc(list(a)), **k)
        return _Frozen(self, a)

    def __getattr__(self, m):
        real = getattr(self._r, m)

        def f(*a, **k):
            if not core.has_sym(list(a)):
                return npx._rewrap(real(*npx._deep_conc(list(a)), **k))
            return npx.elementwise(
                lambda *t: core.cur().uf("{}_{}".format(self._n, m), *t),
                *a)
        return f


class _Frozen:
    def __init__(self, dist, args):
        self._d, self._args = dist, list(args)

    def __getattr__(self, m):
        return lambda x: getattr(self._d, m)(x, *self._args)


class SpecialProxy:
    def __init__(self):
        from scipy import special
        self._s = special

    def xlogy(self, x, y):
        def f(a, b):
            if not isinstance(a, Sym) and a == 0 and not (
                    core.is_nonfinite(b) and b != b):
                return 0.0
            if core.cur().meta.get("lazy") and isinstance(b, Sym):
                if isinstance(a, Sym) and core.cur().sign(core.zr(a)) == 2:
                    return core.s_mul(a, core.lift(core.LOG(core.zreal(b))))
                # opaque term, no case split
                return core.s_ite(core.s_eq(a, 0), 0.0, core.s_mul(
                    a, core.lift(core.LOG(core.zreal(b)))))
            if not isinstance(a, Sym):
                return core.s_mul(a, core.s_log(b))
            if isinstance(b, Sym) and core.cur().entailed(core.zr(b) > 0):
                return core.s_mul(a, core.s_log(b))   # 0 * finite = 0
            if core.cur().branch(core.zr(a) == 0):
                return 0.0
            return core.s_mul(a, core.s_log(b))
        return npx.elementwise(f, x, y)

    def __getattr__(self, n):
        real = getattr(self._s, n)

        def f(*a, **k):
            if core.has_sym(list(a)):
                return npx.elementwise(
                    lambda *t: core.cur().uf("special_" + n, *t), *a)
            return npx._rewrap(real(*npx._deep_conc(list(a)), **k))
        return f


class HullProxy:
    def __init__(self, points, *a, **k):
        from scipy.spatial import ConvexHull
        self._h = None
        if core.has_sym(points):
            self._sym(npx.to_obj(points).tolist())
        else:
            self._h = ConvexHull(npx.plain(points))

    def _sym(self, pts):
        """exact area of the hull of points with abscissae 0..n-1"""
        from scipy.spatial import QhullError
        if any(core.is_sym(p[0]) or p[0] != i for i, p in enumerate(pts)):
            raise Unsupported("ConvexHull of general symbolic points")
        y, n = [p[1] for p in pts], len(pts)
        area = 0
        for i in range(1, n - 1):
            ch = [y[i]]
            for a in range(i):
                for b in range(i + 1, n):
                    w = (i - a) / (b - a)
                    ch.append(core.s_add(core.s_mul(y[a], 1 - w),
                                         core.s_mul(y[b], w)))
            hi = lo = ch[0]
            for t in ch[1:]:
                hi, lo = core.s_max(hi, t), core.s_min(lo, t)
            area = core.s_add(area, core.s_sub(hi, lo))
        if bool(core.s_eq(area, 0)):
            raise QhullError("QH6013 initial simplex is flat")
        self.volume = area

    def __getattr__(self, n):
        if self._h is None:
            raise Unsupported("ConvexHull." + n)
        return getattr(self._h, n)


def _table():
    if _STATE["table"] is not None:
        return _STATE["table"]
    import pandas
    import scipy.stats
    import scipy.special
    import sklearn.utils
    import sklearn.utils.validation
    import sklearn.utils.multiclass
    from scipy.spatial import ConvexHull
    from ortools.sat.python import cp_model
    from ortools.linear_solver import pywraplp
    t = {
        id(np): npx.NP,
        id(pandas): npx.PD,
        id(scipy.stats): StatsProxy(),
        id(scipy.special): SpecialProxy(),
        id(sklearn.utils.check_array): _check_array,
        id(sklearn.utils.check_consistent_length): _check_consistent_length,
        id(sklearn.utils.validation._check_sample_weight):
            _check_sample_weight,
        id(sklearn.utils.compute_class_weight): _compute_class_weight,
        id(sklearn.utils.multiclass.type_of_target): _type_of_target,
        id(ConvexHull): HullProxy,
        id(cp_model): ortx.FakeCpModule,
        id(pywraplp): ortx.FakeLpModule,
    }
    for nm in dir(np):
        if nm.startswith("_"):
            continue
        try:
            o = getattr(np, nm)
        except Exception:
            continue
        if callable(o) and not isinstance(o, type):
            t.setdefault(id(o), getattr(npx.NP, nm))
    t[id(pandas.DataFrame)] = npx.PD.DataFrame
    t[id(pandas.Series)] = npx.PD.Series
    _STATE["table"] = t
    return t


def _install():
    tab = _table()
    saved = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "optbinning" or
                               name.startswith("optbinning.")):
            continue
        g = vars(mod)
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            r = tab.get(id(v))
            if r is not None:
                saved.append((g, k, v))
                g[k] = r
        for k, r in (("int", npx.SymInt), ("float", npx.SymFloat),
                     ("min", npx.sym_min), ("max", npx.sym_max)):
            if k not in g:
                saved.append((g, k, None))
                g[k] = r
    _STATE["saved"] = saved
    _STATE["on"] = True


def _remove():
    for g, k, v in reversed(_STATE["saved"] or []):
        if v is None:
            g.pop(k, None)
        else:
            g[k] = v
    _STATE["saved"] = None
    _STATE["on"] = False


@contextlib.contextmanager
def patched():
    was = _STATE["on"]
    if not was:
        _install()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        if not was:
            _remove()


@contextlib.contextmanager
def unpatched():
    was = _STATE["on"]
    if was:
        _remove()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                yield
    finally:
        if was:
            _install()


@contextlib.contextmanager
def concrete(c):
    """force the real solver's variables to the counterexample's values"""
    if not c.svals:
        yield
        return
    from ortools.sat.python import cp_model
    from ortools.linear_solver import pywraplp
    rep = {id(cp_model): ortx.forced_cp(cp_model, c),
           id(pywraplp): ortx.forced_lp(pywraplp, c)}
    saved = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("optbinning"):
            continue
        g = vars(mod)
        for k, v in list(g.items()):
            if id(v) in rep and not k.startswith("__"):
                saved.append((g, k, v))
                g[k] = rep[id(v)]
    try:
        yield
    finally:
        for g, k, v in saved:
            g[k] = v


_CUT = ("gini", "jensen_shannon", "hellinger", "triangular", "jeffrey", "hhi")


@contextlib.contextmanager
def cut_metrics(c, names=_CUT, opaque=False):
    """replace the divergence metrics by constants (symbolic mode only), or by
    arbitrary values (opaque): used by harnesses whose property does not
    mention their definition"""
    if not c.symbolic:
        yield
        return

    def const(*a, return_sum=False, **k):
        n = len(a[0]) if a and hasattr(a[0], "__len__") else 0
        return 0.0 if return_sum else npx.NP.zeros(n)

    cnt = [0]

    def scalar(*a, **k):
        if opaque:
            cnt[0] += 1
            return c.real("opaque{}".format(cnt[0]), 0, 1)
        return 0.0
    saved = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith("optbinning.binning"):
            continue
        g = vars(mod)
        for k, v in list(g.items()):
            if getattr(v, "__module__", None) == \
                    "optbinning.binning.metrics" and \
                    getattr(v, "__name__", None) in names:
                saved.append((g, k, v))
                g[k] = scalar if v.__name__ in ("gini", "hhi") else const
    try:
        yield
    finally:
        for g, k, v in saved:
            g[k] = v


@contextlib.contextmanager
def prebin(splits):
    """environment stub: the prebinning algorithm (scikit-learn CART, or a
    discretizer) returns the given splits; used in both modes"""
    from optbinning.binning.prebinning import PreBinning

    def fit(self, x, y=None, sample_weight=None):
        sp = splits[self.n_bins] if isinstance(splits, dict) else splits
        r = np.asarray(sp, dtype=float)
        self._splits = npx.wrap(r) if _STATE["on"] else r
        return self
    old = PreBinning.fit
    PreBinning.fit = fit
    try:
        yield
    finally:
        PreBinning.fit = old
