"""Helpers shared by the harnesses.  Every helper works on symbolic and on
concrete contexts: the same body is explored by the solver and replayed on the
real code."""

import math

import numpy as np

from symex import core, npx, patch
from symex.runner import Harness          # noqa: F401  (re-export)

TOL6 = 2e-6


def arr(c, l, dt=float):
    """1D/2D numeric array of (possibly symbolic) values"""
    if c.symbolic:
        return npx.SymArray(npx.to_obj(list(l)), np.dtype(dt))
    return np.array(l, dtype=dt)


def oarr(c, l):
    """object array"""
    if c.symbolic:
        return npx.SymArray(npx.to_obj(list(l)), np.dtype(object))
    a = np.empty(len(l), dtype=object)
    for i, e in enumerate(l):
        a[i] = e
    return a


def lst(a):
    """array-like -> python list of scalars"""
    if isinstance(a, npx.SymSeries):
        a = a.values
    if hasattr(a, "to_numpy"):
        a = a.to_numpy()
    if isinstance(a, npx.SymArray):
        return a._raw().tolist()
    if isinstance(a, np.ndarray):
        return a.tolist()
    return list(a)


def groups_of(n, splits, cuts):
    """prebins 0..n-1 separated by cuts[i] (between i and i+1); splits is the
    list of retained cuts -> list of groups of prebin indices"""
    out, cur = [], []
    for i in range(n):
        cur.append(i)
        if i == n - 1 or any(abs(float(s) - cuts[i]) < 1e-9 for s in splits):
            out.append(cur)
            cur = []
    return out


def partitions(n):
    """all compositions of range(n) as lists of groups"""
    out = []
    for m in range(2 ** (n - 1)):
        gs, cur = [], []
        for i in range(n):
            cur.append(i)
            if i == n - 1 or (m >> i) & 1:
                gs.append(cur)
                cur = []
        out.append(gs)
    return out


def trend_ok(c, trend, r, tol=TOL6, ties=True):
    """r (list of bin metrics) follows the trend, up to tol (negative: with
    a margin, or exact ties)"""
    k = len(r)

    def mon(u, v):
        if tol < 0 and ties:
            return c.Or(le(c, u, v, tol), core.s_eq(u, v))
        return le(c, u, v, tol)

    def asc(a, b):
        return c.And([mon(r[i], r[i + 1]) for i in range(a, b)])

    def desc(a, b):
        return c.And([mon(r[i + 1], r[i]) for i in range(a, b)])
    if trend is None:
        return True
    if trend == "ascending":
        return asc(0, k - 1)
    if trend == "descending":
        return desc(0, k - 1)
    if trend in ("peak", "peak_heuristic"):
        return c.Or([c.And(asc(0, t), desc(t, k - 1)) for t in range(k)])
    if trend in ("valley", "valley_heuristic"):
        return c.Or([c.And(desc(0, t), asc(t, k - 1)) for t in range(k)])
    if trend == "concave":
        return c.And([le(c, sub(add(r[i - 1], r[i + 1]), mul2(r[i])), 0,
                         2 * tol) for i in range(1, k - 1)])
    if trend == "convex":
        return c.And([le(c, sub(mul2(r[i]), add(r[i - 1], r[i + 1])), 0,
                         2 * tol) for i in range(1, k - 1)])
    raise ValueError(trend)


def le(c, a, b, tol=0.0):
    return core.s_le(a, core.s_add(b, tol)) if tol else core.s_le(a, b)


def add(a, b):
    return core.s_add(a, b)


def sub(a, b):
    return core.s_sub(a, b)


def mul(a, b):
    return core.s_mul(a, b)


def mul2(a):
    return core.s_mul(2, a)


def div(a, b):
    return core.s_div(a, b)


def absv(a):
    return core.s_abs(a)


def nan():
    return float("nan")


def isnan(v):
    return not core.is_sym(v) and isinstance(v, (float, np.floating)) and \
        math.isnan(v)


def status_ok(c, status):
    """concrete runs: the guarantees are about solved problems"""
    c.assume(status in ("OPTIMAL", "FEASIBLE"))


def expect_raises(f, exc):
    try:
        f()
    except exc:
        return True
    return False


def sstats(c):
    """scipy.stats as seen by the code under test"""
    from scipy import stats
    return patch.StatsProxy() if c.symbolic else stats


def total(rows):
    t = 0
    for r in rows:
        t = core.s_add(t, r)
    return t


def printed(c, f):
    """text printed by f()"""
    import contextlib
    import io
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return b.getvalue()


def reported(c, text, label):
    """value printed after a label in a report"""
    for line in text.splitlines():
        if line.strip().startswith(label):
            w = line.strip()[len(label):].split()
            if c.symbolic:
                return c.untoken(w[0])
            return float(w[0])
    raise AssertionError("no line {!r} in the report".format(label))
