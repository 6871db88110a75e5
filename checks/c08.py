"""C08: two-dimensional binning: rectangles, constraints, routing."""

import contextlib

from optbinning import ContinuousOptimalBinning2D, OptimalBinning2D
from optbinning.binning.multidimensional import binning_2d as _b2
from optbinning.binning.multidimensional import continuous_binning_2d as _c2

from .lib import *

ASSUMPTIONS = [
    "prebinning returns the given splits; the decision tree of strategy "
    "'cart' is an arbitrary one of the listed trees",
    "counts of the pregrid are symbolic (symbolic runs replace the counting "
    "of records, which has harnesses of its own; replays use records)"]

NX, NY = 31, 37             # max_n_prebins of x and of y


def grid(m, n):
    return [(i, j) for i in range(m) for j in range(n)]


def rects(m, n):
    """rectangles as frozensets of cells"""
    out = []
    for i in range(m):
        for j in range(n):
            for k in range(i, m):
                for q in range(j, n):
                    out.append(frozenset((a, b) for a in range(i, k + 1)
                                         for b in range(j, q + 1)))
    return out


def coverings(m, n):
    """all partitions of the grid into rectangles"""
    R = rects(m, n)
    out = []

    def rec(left, acc):
        if not left:
            out.append(acc)
            return
        f = min(left)
        for r in R:
            if min(r) == f and r <= left:
                rec(left - r, acc + [r])
    rec(frozenset(grid(m, n)), [])
    return out


class Grid:
    """counts of the cells of the pregrid"""

    def __init__(self, c, target, m, n, lo=1, hi=100, total=None, only=None):
        self.target, self.m, self.n = target, m, n
        G = grid(m, n)
        self.a, self.b = {}, {}
        for i, j in G:
            k = i * n + j
            if only is not None and (i, j) not in only:
                self.b[i, j] = 20 + (7 * k) % 5
                self.a[i, j] = [12, 19, 9, 15][k % 4]
            elif only is not None:
                self.b[i, j] = 20 + (7 * k) % 5
                self.a[i, j] = c.int("e%d%d" % (i, j), lo, hi) \
                    if target == "binary" \
                    else c.real("v%d%d" % (i, j), -50, 50)
            elif target == "binary":
                self.a[i, j] = c.int("e%d%d" % (i, j), lo, hi)
                self.b[i, j] = c.int("m%d%d" % (i, j), lo, hi)
            else:
                self.a[i, j] = c.real("v%d%d" % (i, j), -50, 50)
                self.b[i, j] = 1 + (i + 2 * j) % 3 if lo is None \
                    else c.int("m%d%d" % (i, j), lo, hi)
        if total:
            c.assume(core.s_eq(self.size(c, G), total))
        self.total = total

    def event(self, c, r):
        return c.sum([self.a[k] for k in sorted(r)])

    def size(self, c, r):
        if self.target == "binary":
            return add(self.event(c, r), c.sum([self.b[k]
                                                for k in sorted(r)]))
        return c.sum([self.b[k] for k in sorted(r)])

    def rate(self, c, r):
        if self.target == "binary":
            return c.div(self.event(c, r), self.size(c, r))
        return c.div(c.sum([mul(self.a[k], self.b[k]) for k in sorted(r)]),
                     self.size(c, r))

    def matrices(self, c):
        """what counting the records gives"""
        def mat(f, dt):
            l = [[f(i, j) for j in range(self.n)] for i in range(self.m)]
            return npx.SymArray(npx.to_obj([v for r in l for v in r]),
                                np.dtype(dt)).reshape((self.m, self.n))
        if self.target == "binary":
            return mat(lambda *k: self.b[k], int), \
                mat(lambda *k: self.a[k], int)
        return (mat(lambda *k: self.b[k], float),
                mat(lambda *k: mul(self.a[k], self.b[k]), float),
                mat(lambda *k: mul(mul(self.a[k], self.a[k]), self.b[k]),
                    float))

    def fit(self, c, params):
        splits = {NX: [j + 0.5 for j in range(self.n - 1)],
                  NY: [i + 0.5 for i in range(self.m - 1)]}
        C = OptimalBinning2D if self.target == "binary" \
            else ContinuousOptimalBinning2D
        ob = C(max_n_prebins_x=NX, max_n_prebins_y=NY, **params)
        X, Y, Z = [], [], []
        for i, j in grid(self.m, self.n):
            if self.target == "binary":
                k1 = 1 if c.symbolic else int(self.a[i, j])
                k0 = 1 if c.symbolic else int(self.b[i, j])
                zs = [1] * k1 + [0] * k0
            else:
                k = 1 if c.symbolic else int(self.b[i, j])
                zs = [0.0 if c.symbolic else float(self.a[i, j])] * k
            X += [float(j)] * len(zs)
            Y += [float(i)] * len(zs)
            Z += zs
        if c.symbolic:
            count = ob._prebinning_matrices

            def symbolic_counts(*a, **k):
                count(*a, **k)
                if self.total:
                    ob._n_samples = self.total
                return self.matrices(c)
            ob._prebinning_matrices = symbolic_counts
        with patch.prebin(splits):
            ob.fit(np.array(X), np.array(Y), np.array(Z))
        return ob

    def result(self, ob):
        """rectangles of the solution"""
        sx, sy = ob.splits
        out = []
        for (a, b), (d, e) in zip(lst(sx), lst(sy)):
            out.append(frozenset(
                (i, j) for i, j in grid(self.m, self.n)
                if float(a) <= j < float(b) and float(d) <= i < float(e)))
        return out


def neighbours(R, axis):
    """pairs of rectangles with a common border along an axis"""
    out = []
    for r in R:
        for s in R:
            if r is s:
                continue
            nb = {(i, j + 1) if axis == "x" else (i + 1, j) for i, j in r}
            if nb & s:
                out.append((r, s))
    return out


def spec(c, g, R, p, margin):
    """requests of the user: (label, condition)"""
    out = [("every cell is in one rectangle",
            sorted(k for r in R for k in r) == grid(g.m, g.n))]
    if g.target == "binary":
        for r in R:
            e, s = g.event(c, r), g.size(c, r)
            out.append(("both classes in every bin", c.And(
                [core.s_gt(e, 0), core.s_gt(sub(s, e), 0)])))
    else:
        out.append(("records in every bin", c.And(
            [core.s_gt(g.size(c, r), 0) for r in R])))
    k = len(R)
    if p.get("min_n_bins") is not None:
        out.append(("min_n_bins", core.s_ge(k, p["min_n_bins"])))
    if p.get("max_n_bins") is not None:
        out.append(("max_n_bins", core.s_le(k, p["max_n_bins"])))
    for r in R:
        s = g.size(c, r)
        if p.get("min_bin_size") is not None:
            out.append(("min_bin_size", core.s_ge(
                s, mul(p["min_bin_size"], g.total))))
        if p.get("max_bin_size") is not None:
            out.append(("max_bin_size", core.s_lt(
                s, add(mul(p["max_bin_size"], g.total), 1))))
        if g.target == "binary":
            e = g.event(c, r)
            for nm, v in (("event", e), ("nonevent", sub(s, e))):
                if p.get("min_bin_n_" + nm) is not None:
                    out.append(("min_bin_n_" + nm, core.s_ge(
                        v, p["min_bin_n_" + nm])))
                if p.get("max_bin_n_" + nm) is not None:
                    out.append(("max_bin_n_" + nm, core.s_le(
                        v, p["max_bin_n_" + nm])))
    key = "min_event_rate_diff_" if g.target == "binary" \
        else "min_mean_diff_"
    for ax in "xy":
        t = p.get("monotonic_trend_" + ax)
        if t is None:
            continue
        d = add(p.get(key + ax, 0), margin)
        for r, s in neighbours(R, ax):
            u, v = g.rate(c, r), g.rate(c, s)
            if t == "descending":
                u, v = v, u
            # adjacent bins must differ (strictly) in completeness
            out.append(("monotonic trend " + ax, core.s_ge(v, add(u, d))))
    return out


def sym(c, params):
    p = dict(params)
    for key, (lo, hi) in list(p.pop("sym", {}).items()):
        p[key] = c.real(key, lo, hi) if "size" in key or "diff" in key \
            else c.int(key, lo, hi)
    for a, b in (("min_n_bins", "max_n_bins"),
                 ("min_bin_size", "max_bin_size"),
                 ("min_bin_n_event", "max_bin_n_event"),
                 ("min_bin_n_nonevent", "max_bin_n_nonevent")):
        if p.get(a) is not None and p.get(b) is not None:
            c.assume(core.s_le(p[a], p[b]))
    return p


class Tree:
    """stand-in of a fitted decision tree over the pregrid: nodes (feature,
    threshold, left, right), leaves None"""

    def __init__(self, nodes):
        self.nodes = nodes

    def __call__(self, **kw):
        return self

    def fit(self, X, y):
        class T:
            pass
        self.tree_ = T()
        N = self.nodes
        self.tree_.children_left = np.array([-1 if k is None else k[2]
                                             for k in N])
        self.tree_.children_right = np.array([-1 if k is None else k[3]
                                              for k in N])
        self.tree_.threshold = np.array([-2.0 if k is None else k[1]
                                         for k in N])
        self.tree_.feature = np.array([-2 if k is None else k[0]
                                       for k in N])
        return self


@contextlib.contextmanager
def trees(nodes):
    if nodes is None:
        yield
        return
    old = _b2.DecisionTreeClassifier, _c2.DecisionTreeRegressor
    _b2.DecisionTreeClassifier = _c2.DecisionTreeRegressor = Tree(nodes)
    try:
        yield
    finally:
        _b2.DecisionTreeClassifier, _c2.DecisionTreeRegressor = old


def body_sound(c, target="binary", m=2, n=2, lo=1, hi=100, total=None,
               nodes=None, only=None, **params):
    """every solution of the model satisfies the request"""
    g = Grid(c, target, m, n, lo, hi, total, only)
    p = sym(c, params)
    with patch.cut_metrics(c), trees(nodes):
        ob = g.fit(c, p)
        if not c.symbolic:
            status_ok(c, ob.status)
        R = g.result(ob)
        c.cover("bins=%d" % len(R))
        c.prove(len(set(R)) == len(R) and all(r in set(rects(m, n))
                                              for r in R),
                "bins are rectangles of the pregrid")
        for label, cond in spec(c, g, R, p, -1e-9):
            c.prove(cond, label)
        if target == "binary":
            df = ob.binning_table.build()
            k = len(R)
            for name, f in (("Count", g.size), ("Event", g.event)):
                got = lst(df[name])
                c.prove(len(got) == k + 3, "rows of the table")
                for r, v in zip(R, got):
                    c.prove(c.eq(v, f(c, r)), name + " of a bin")
                c.prove(c.And([c.eq(got[k], 0), c.eq(got[k + 1], 0)]),
                        "no special nor missing records")
        else:
            df = ob.binning_table.build()
            got = lst(df["Count"])
            for r, v, s in zip(R, got, lst(df["Sum"])):
                c.prove(c.near(v, g.size(c, r)), "Count of a bin")
                c.prove(c.near(s, mul(g.rate(c, r), g.size(c, r))),
                        "Sum of a bin")


def divergence(c, kind, g, r):
    G = grid(g.m, g.n)
    if g.target == "continuous":
        return absv(sub(g.rate(c, r), g.rate(c, G)))
    e, te = g.event(c, r), g.event(c, G)
    s, ts = g.size(c, r), g.size(c, G)
    P, Q = c.div(e, te), c.div(sub(s, e), sub(ts, te))
    if kind == "iv":
        return mul(sub(P, Q), core.s_log(c.div(P, Q)))
    if kind == "js":
        h = mul(0.5, add(P, Q))
        return mul(0.5, add(mul(P, core.s_log(c.div(P, h))),
                            mul(Q, core.s_log(c.div(Q, h)))))
    if kind == "hellinger":
        return mul(0.5, core.s_pow(sub(core.s_sqrt(P), core.s_sqrt(Q)), 2))
    return c.div(core.s_pow(sub(P, Q), 2), add(P, Q))


def body_complete(c, target="binary", m=2, n=2, lo=1, hi=100, total=None,
                  objective=None, only=None, **params):
    """every admissible covering is reachable (and valued by its objective)"""
    cov = coverings(m, n)
    g = Grid(c, target, m, n, lo, hi, total, only)
    p = sym(c, params)
    if objective and target == "binary":
        p["divergence"] = objective
    if c.symbolic:
        c.meta["solve_mode"] = "collect"
        c.meta["force"] = "none"
        c.meta["bits"] = [False] * 200
    cm = patch.cut_metrics(c) if objective is None \
        else contextlib.nullcontext()
    with cm:
        ob = g.fit(c, p)
    label = "an admissible covering is in the search space"
    olabel = "the objective of a covering is its divergence"

    def value(Q):
        return c.sum([divergence(c, objective, g, r) for r in Q])
    if c.symbolic:
        mod = c.meta["models"][-1]
        have = {frozenset((int(v) // n, int(v) % n) for v in lst(r)): i
                for i, r in enumerate(ob._rows)}
    else:
        ok = ob.status in ("OPTIMAL", "FEASIBLE")
    for R in cov:
        valid = c.And([x for _, x in spec(c, g, R, p, 1e-6)])
        if not c.symbolic:
            if bool(valid):
                c.prove(ok, label)
                if objective and ob.status == "OPTIMAL":
                    c.prove(value(g.result(ob)) >= value(R)
                            - 3e-6 * (len(R) + 2), olabel)
            continue
        c.cover("bins=%d" % len(R))
        if not all(r in have for r in R):
            c.prove(c.Not(valid), label)
            continue
        idx = {have[r] for r in R}
        lv = mod.leaves([i in idx for i in range(len(mod.decoded))])
        rep = core.lift(core.z3.Or(*[a for a, _, _ in lv])) if lv \
            else False
        c.prove(c.Or(c.Not(valid), rep), label)
        if not objective:
            continue
        c.prove(mod.sense == "max", "the objective is maximized")
        for _, obj, _ in lv:
            o = core.lift(obj)
            v = value(R)
            if p.get("solver", "cp") == "mip":
                c.prove(c.near(o, v), olabel)
            else:
                d = sub(o, mul(1e6, v))
                same = core.s_eq(o, c.sum([core.sym_int(mul(
                    1e6, divergence(c, objective, g, r))) for r in R]))
                c.prove(c.Or(same, c.And([
                    core.s_le(d, 1e-3), core.s_ge(d, -(len(R) + 1e-3))])),
                    olabel)


def body_route(c, target="binary", kinds="v", special=None, m=2, n=2,
               as_array=False, **params):
    """records are counted in, and transformed to, their rectangle"""
    spx, spy = [0.0, 2.0][:n - 1], [-1.0, 1.0][:m - 1]
    ax, ay = [-3.0, 1.0, 4.0][:n], [-4.0, 0.5, 5.0][:m]
    X, Y, Z = [], [], []
    for i, b in enumerate(ay):
        for j, a in enumerate(ax):
            X += [a, a]
            Y += [b, b]
            Z += [0, 1] if target == "binary" else [1.0 + i, 2.0 + j]

    def val(k, name):
        if k == "v":
            return c.real(name, -9, 9)
        return nan() if k == "m" else -77.0
    kx = c.choice("kind x", list(kinds))
    ky = c.choice("kind y", list(kinds))
    x, y = val(kx, "x"), val(ky, "y")
    z = c.choice("z", [0, 1]) if target == "binary" else 7.5
    for v, k, sp in ((x, kx, spx), (y, ky, spy)):
        for t in sp if k == "v" else ():
            bool(core.s_lt(v, t))           # decide the cell of the record
    C = OptimalBinning2D if target == "binary" \
        else ContinuousOptimalBinning2D
    code = [-77.0] if special else None
    if code and as_array:
        code = np.array(code)
    ob = C(max_n_prebins_x=NX, max_n_prebins_y=NY, special_codes_x=code,
           special_codes_y=code, **params)
    with patch.cut_metrics(c):
        with patch.prebin({NX: spx, NY: spy}):
            ob.fit(arr(c, X + [x]), arr(c, Y + [y]),
                   np.array(Z + [int(z) if target == "binary" else z]))
        if not c.symbolic:
            status_ok(c, ob.status)
        sx, sy = ob.splits
        R = list(zip(lst(sx), lst(sy)))
        missing = "m" in (kx, ky)
        spec_ = special and not missing and "s" in (kx, ky)

        def inside(u, v, r):
            return c.And([core.s_le(float(r[0][0]), u),
                          core.s_lt(u, float(r[0][1])),
                          core.s_le(float(r[1][0]), v),
                          core.s_lt(v, float(r[1][1]))])
        df = ob.binning_table.build()
        cnt = lst(df["Count"])
        xs, ys = X + [x], Y + [y]
        own = None
        if missing:
            own = len(R) + 1
        elif spec_:
            own = len(R)
        for i, r in enumerate(R):
            exp = sum(bool(inside(u, v, r)) for u, v in zip(X, Y))
            if own is None and bool(inside(x, y, r)):
                own = i
                c.cover("clean")
            c.prove(c.eq(cnt[i], exp + (own == i)), "records of a rectangle")
        c.prove(own is not None, "every record has a rectangle")
        c.prove(c.eq(cnt[len(R)], int(own == len(R))), "special records")
        c.prove(c.eq(cnt[len(R) + 1], int(own == len(R) + 1)),
                "missing records")
        c.prove(c.eq(cnt[-1], len(xs)), "every record is counted once")
        if own >= len(R):
            c.cover("special" if own == len(R) else "missing")
        ms = "empirical"
        q = arr(c, xs), arr(c, ys)
        idx = lst(ob.transform(*q, metric="indices", metric_special=ms,
                               metric_missing=ms))
        c.prove(c.same(idx[-1], own), "index of the rectangle of a record")
        for u, v, i in zip(X, Y, idx):
            c.prove(bool(inside(u, v, R[int(i)])),
                    "index of the rectangle of a record")
        metrics = [("event_rate", "Event rate"), ("woe", "WoE")] \
            if target == "binary" else [("mean", "Mean")]
        for metric, col in metrics:
            t = lst(ob.transform(*q, metric=metric, metric_special=ms,
                                 metric_missing=ms))
            c.prove(c.near(t[-1], lst(df[col])[own]),
                    metric + " of a record is that of its rectangle")
            t = lst(ob.transform(*q, metric=metric, metric_special=1.25,
                                 metric_missing=-2.5))
            v = lst(df[col])[own]
            if own == len(R):
                v = 1.25
            elif own > len(R):
                v = -2.5
            c.prove(c.near(t[-1], v),
                    metric + " of a record with given special values")


T22 = [  # trees over a 2x2 and 3x3 pregrid
    [(0, 0.5, 1, 2), None, (1, 0.5, 3, 4), None, None],
    [(1, 0.5, 1, 2), (0, 0.5, 3, 4), (0, 0.5, 5, 6), None, None, None, None],
]
T33 = [
    [(0, 0.5, 1, 2), (1, 0.5, 5, 6), (0, 1.5, 3, 4), None, None, None, None],
    [(1, 1.5, 1, 2), (0, 0.5, 3, 4), (0, 1.5, 5, 6), None, None, None, None],
]


def harnesses(tier):
    H = []

    def mk(name, body, tier="quick", expect=(), **p):
        H.append(Harness(
            name, lambda c, p=p, b=body: b(c, **p),
            "%sx%s pregrid, %s" % (
                p.get("m", 2), p.get("n", 2),
                "one symbolic record besides two per cell"
                if body is body_route else
                "any counts in [%s,%s]%s" % (
                    p.get("lo", 1), p.get("hi", 100),
                    "" if p.get("target", "binary") == "binary"
                    else ", any cell mean in [-50,50]")),
            expect=expect, tier=tier))
    ALL = ("bins=1", "bins=2", "bins=3", "bins=4")
    D = [(0, 0), (1, 1)]
    for s in ("cp", "mip"):
        k = dict(solver=s)
        for b, nm in ((body_sound, "sound"), (body_complete, "complete")):
            mk("%s %s plain" % (nm, s), b, expect=ALL, **k)
            mk("%s %s zero counts" % (nm, s), b, expect=ALL[:2], lo=0, hi=50,
               m=1, n=2, **k)
            mk("%s %s zero counts 3" % (nm, s), b, expect=ALL[:3], lo=0,
               hi=50, m=3, n=1, tier="thorough", **k)
            mk("%s %s continuous" % (nm, s), b, target="continuous",
               lo=None, expect=ALL, **k)
            mk("%s %s continuous counts" % (nm, s), b, target="continuous",
               lo=0, hi=50, m=1, n=2, expect=ALL[:2], **k)
        for b, nm in ((body_sound, "sound"), (body_complete, "complete")):
            mk("%s %s bins" % (nm, s), b, expect=ALL,
               sym=dict(min_n_bins=(1, 5), max_n_bins=(1, 5)), **k)
            mk("%s %s min bins" % (nm, s), b, expect=ALL,
               sym=dict(min_n_bins=(1, 5)), tier="quick" if s == "cp"
               else "thorough", **k)
            mk("%s %s max bins" % (nm, s), b, expect=ALL,
               sym=dict(max_n_bins=(1, 5)), tier="quick" if s == "mip"
               else "thorough", **k)
            mk("%s %s min size" % (nm, s), b, expect=ALL[:3], total=60, m=1,
               n=3, min_bin_size=0.15, **k)
            mk("%s %s max size" % (nm, s), b, total=60, max_bin_size=0.3,
               expect=("bins=4",), **k)
            mk("%s %s events" % (nm, s), b, expect=ALL[:3], m=1, n=3,
               sym=dict(min_bin_n_event=(1, 150), max_bin_n_event=(1, 400)),
               **k)
            mk("%s %s non-events" % (nm, s), b, expect=ALL[:3], m=1, n=3,
               sym=dict(min_bin_n_nonevent=(1, 150),
                        max_bin_n_nonevent=(1, 400)), **k)
            mk("%s %s continuous size" % (nm, s), b, target="continuous",
               total=40, min_bin_size=0.2, max_bin_size=0.8, m=1, n=3,
               expect=("bins=2",), tier="quick" if s == "cp"
               else "thorough", **k)
            for t in ("ascending", "descending"):
                for ax in ("x", "y"):
                    kk = {"monotonic_trend_" + ax: t}
                    mk("%s %s %s %s" % (nm, s, t, ax), b,
                       only=D[:1] if t == "ascending" else [(0, 1)],
                       **dict(k, **kk))
                    mk("%s %s two cells %s %s" % (nm, s, t, ax), b,
                       expect=ALL, only=D, **dict(k, **kk),
                       tier="quick" if nm == "complete" else "thorough")
                    mk("%s %s continuous %s %s" % (nm, s, t, ax), b,
                       target="continuous", only=D, expect=ALL,
                       **dict(k, **kk))
                    mk("%s %s all %s %s" % (nm, s, t, ax), b, expect=ALL,
                       tier="thorough", **dict(k, **kk))
            mk("%s %s both trends" % (nm, s), b, only=[(0, 1)],
               monotonic_trend_x="ascending", monotonic_trend_y="descending",
               **k)
            mk("%s %s 1x3 diff" % (nm, s), b, m=1, n=3,
               expect=("bins=1", "bins=2", "bins=3"),
               monotonic_trend_x="ascending",
               sym=dict(min_event_rate_diff_x=(0, 1)), **k)
            mk("%s %s 3x1 diff" % (nm, s), b, m=3, n=1,
               expect=("bins=1", "bins=2", "bins=3"),
               monotonic_trend_y="descending",
               sym=dict(min_event_rate_diff_y=(0, 1)), **k)
            mk("%s %s 2x3" % (nm, s), b, m=2, n=3, expect=ALL, only=D, **k)
            mk("%s %s 3x3" % (nm, s), b, m=3, n=3, expect=ALL, only=D,
               tier="thorough", **k)
        for t in range(2):
            mk("sound %s cart 2x2 tree %d" % (s, t), body_sound,
               nodes=T22[t], strategy="cart", **k)
            mk("sound %s cart 3x3 tree %d" % (s, t), body_sound, m=3, n=3,
               nodes=T33[t], strategy="cart", monotonic_trend_x="ascending",
               **k)
            mk("sound %s cart 3x3 y tree %d" % (s, t), body_sound, m=3, n=3,
               nodes=T33[t], strategy="cart", monotonic_trend_y="descending",
               **k)
        for d in ("iv", "js", "hellinger", "triangular"):
            mk("objective %s %s" % (s, d), body_complete, objective=d,
               expect=ALL, **k)
        mk("objective %s continuous" % s, body_complete, objective="norm",
           target="continuous", lo=None, expect=ALL, **k)
    for t in ("binary", "continuous"):
        mk("route %s" % t, body_route, target=t, kinds="vm",
           expect=("clean", "missing"))
        mk("route %s special" % t, body_route, target=t, kinds="vms",
           special=True, expect=("clean", "missing", "special"))
        mk("route %s special array" % t, body_route, target=t, kinds="vs",
           special=True, as_array=True, max_n_bins=1,
           expect=("clean", "special"))
        mk("route %s 2x3" % t, body_route, target=t, kinds="v", m=2, n=3,
           min_n_bins=4, expect=("clean",), tier="thorough")
    return H
