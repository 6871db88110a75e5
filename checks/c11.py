"""C11: divergence and concentration metrics equal their definitions."""

from optbinning.binning import metrics as M
from optbinning.binning.binning_statistics import (
    BinningTable, ContinuousBinningTable, MulticlassBinningTable)

from .lib import *
from .c10 import CODES, SPL, both
from .tr import n_special

QS = 0.39573882184806863

ASSUMPTIONS = ["chi-square, t and beta distributions are uninterpreted "
               "functions of the arguments the code passes",
               "logarithms, exponentials and square roots are exact"]


def cnts(c, n, hi, zero=True, tag=""):
    e = [c.int("%se%d" % (tag, i), 0 if zero else 1, hi) for i in range(n)]
    q = [c.int("%sn%d" % (tag, i), 0 if zero else 1, hi) for i in range(n)]
    c.assume(core.s_gt(total(e), 0))
    c.assume(core.s_gt(total(q), 0))
    return e, q


def gini_def(c, e, q):
    """|area| between the Lorenz curve and the diagonal: sum over the pairs
    of bins of |e_i q_j - e_j q_i|, over E N"""
    s = 0
    idx = [i for i in range(len(e)) if bool(core.s_gt(add(e[i], q[i]), 0))]
    r = {i: c.div(q[i], add(e[i], q[i])) for i in idx}
    for k, i in enumerate(idx):
        for j in idx[k + 1:]:
            d = sub(mul(e[i], q[j]), mul(e[j], q[i]))
            s = add(s, d) if bool(core.s_le(r[i], r[j])) else sub(s, d)
    return s


def body_gini(c, n=3, hi=50, zero=True):
    e, q = cnts(c, n, hi, zero)
    g = M.gini(arr(c, e, int), arr(c, q, int))
    d = gini_def(c, e, q)
    c.cover("run")
    den = mul(total(e), total(q))
    c.prove(c.eq(mul(g, den), d), "gini")


def body_gini_perm(c, n=3, hi=50):
    e, q = cnts(c, n, hi, False)
    g = M.gini(arr(c, e, int), arr(c, q, int))
    h = M.gini(arr(c, e[::-1], int), arr(c, q[::-1], int))
    s = M.gini(arr(c, q, int), arr(c, e, int))
    c.cover("run")
    c.prove(c.eq(g, h), "gini does not depend on the order of the bins")
    c.prove(c.eq(g, s), "gini is symmetric in the classes")


def probs(c, n, tag, zero=True):
    p = [c.real("%s%d" % (tag, i), 0, 1) for i in range(n)]
    if not zero:
        for v in p:
            c.assume(core.s_gt(v, 0))
    return p


def body_div(c, which="jeffrey", n=2):
    x, y = probs(c, n, "x", False), probs(c, n, "y", False)
    f = getattr(M, which)
    r = lst(f(arr(c, x), arr(c, y)))
    t = f(arr(c, x), arr(c, y), return_sum=True)
    s = f(arr(c, y), arr(c, x), return_sum=True)
    c.cover("run")
    log = core.s_log
    for i in range(n):
        a, b = x[i], y[i]
        if which == "jeffrey":
            d = mul(sub(a, b), log(c.div(a, b)))
        elif which == "kullback_leibler":
            d = mul(a, log(c.div(a, b)))
        elif which == "jensen_shannon":
            m = div(add(a, b), 2)
            d = div(add(mul(a, log(c.div(a, m))),
                        mul(b, log(c.div(b, m)))), 2)
        elif which == "triangular":
            d = c.div(mul(sub(a, b), sub(a, b)), add(a, b))
        else:
            u = sub(core.s_sqrt(a), core.s_sqrt(b))
            d = div(mul(u, u), 2)
        c.prove(c.near(r[i], d), which)
        if which in ("triangular", "hellinger"):
            c.prove(core.s_ge(r[i], 0), which + " non-negative")
    c.prove(c.near(t, total(r)), which + " sum")
    c.prove(c.near(f(arr(c, x), arr(c, x), return_sum=True), 0),
            which + " is zero for equal shares")
    if which != "kullback_leibler":
        c.prove(c.near(t, s), which + " symmetric")


def body_zero(c, which="triangular", n=2):
    """shares may be zero"""
    x, y = probs(c, n, "x"), probs(c, n, "y")
    f = getattr(M, which)
    r = lst(f(arr(c, x), arr(c, y)))
    c.cover("run")
    for i in range(n):
        a, b = x[i], y[i]
        if which == "triangular":
            if bool(core.s_gt(add(a, b), 0)):
                d = c.div(mul(sub(a, b), sub(a, b)), add(a, b))
            else:
                d = 0
            c.prove(c.near(r[i], d), which)
        else:
            u = sub(core.s_sqrt(a), core.s_sqrt(b))
            c.prove(c.near(r[i], div(mul(u, u), 2)), which)


def body_hhi(c, n=3):
    s = probs(c, n, "s")
    c.assume(core.s_eq(total(s), 1))
    h = M.hhi(arr(c, s))
    hn = M.hhi(arr(c, s), normalized=True)
    c.cover("run")
    d = total([mul(v, v) for v in s])
    c.prove(c.near(h, d), "hhi")
    if n == 1:
        c.prove(c.near(hn, 1), "hhi normalized")
    else:
        c.prove(c.near(hn, div(sub(d, 1 / n), 1 - 1 / n)), "hhi normalized")
    c.prove(core.s_ge(hn, -1e-6), "hhi normalized non-negative")
    c.prove(core.s_le(hn, 1 + 1e-6), "hhi normalized at most one")


def qs1(c, iv):
    r = div(iv, QS)
    return mul(r, core.s_exp(div(sub(1, mul(r, r)), 2)))


def body_qs(c, kind="binary", n=2, k=3):
    p = probs(c, n, "p")
    h = c.real("h", 0, 1)
    v = c.real("v", 0, 5)
    q = 1
    for e in p:
        q = mul(q, sub(1, e))
    q = mul(q, sub(1, h))
    if kind == "binary":
        r = M.binning_quality_score(v, list(p), h)
        d = mul(qs1(c, v), q)
    elif kind == "multiclass":
        r = M.multiclass_binning_quality_score(v, k, list(p), h)
        d = mul(qs1(c, div(v, math.log(k))), q)
    else:
        r = M.continuous_binning_quality_score(v, list(p), h)
        if bool(core.s_gt(v, 1)):
            d = mul(sub(1, c.div(1, v)), q)
        else:
            d = 0
        c.prove(c.And(core.s_ge(r, 0), core.s_le(r, 1)), "quality bounds")
    c.cover("run")
    c.prove(c.near(r, d), "quality score")


def body_props(c, hi=50):
    """two-proportion z test with pooled variance"""
    e, q = cnts(c, 2, hi, False)
    z, pv = M.test_proportions(e[0], q[0], e[1], q[1])
    z2, p2 = M.test_proportions(e[1], q[1], e[0], q[0])
    c.cover("run")
    a, b = add(e[0], q[0]), add(e[1], q[1])
    p = c.div(total(e), add(a, b))
    v = mul(mul(p, sub(1, p)), add(c.div(1, a), c.div(1, b)))
    d = sub(c.div(e[0], a), c.div(e[1], b))
    c.prove(c.eq(z, absv(c.div(d, core.s_sqrt(v)))), "z statistic")
    c.prove(core.s_ge(z, 0), "z statistic is an absolute value")
    c.prove(c.near(z, z2), "z test symmetric")
    from scipy import stats
    sf = sstats(c).norm.sf(z) if c.symbolic else stats.norm.sf(z)
    c.prove(c.near(pv, mul(2, sf)), "two sided p-value")


def quality_parts(c, rows):
    return None


def body_table(c, nclean=2, special=None, hi=50, test="chi2", others=False,
               cat=False, zero=False):
    """metrics of the table and of its analysis"""
    ns = n_special(special)
    no = int(others)
    n = nclean + no + ns + 1
    zr = set(range(nclean, n)) if zero else set()
    if not zero:
        # special and missing rows empty or mixed
        pass
    ne = [c.int("n%d" % i, 0 if i in zr else 1, hi) for i in range(n)]
    ev = [c.int("e%d" % i, 0 if i in zr else 1, hi) for i in range(n)]
    kw = {}
    if cat:
        kw = dict(categories=np.array(["a", "b", "c"], dtype=object)[
            :nclean], cat_others=np.array(["o"] if others else [],
                                          dtype=object))
        splits = np.arange(nclean - 1) + 0.5
    else:
        splits = np.array(SPL[:nclean - 1])
    t = BinningTable("x", "categorical" if cat else "numerical",
                     CODES[special], splits, arr(c, ne, int),
                     arr(c, ev, int), **kw)
    with patch.cut_metrics(c, ("hellinger", "triangular", "gini"),
                           opaque=True):
        t.build()
        txt = printed(c, lambda: t.analysis(pvalue_test=test, n_samples=1))
    c.cover("run")
    N, E = total(ne), total(ev)
    iv, js = 0, 0
    for i in range(n):
        if bool(both(ne[i], ev[i])):
            p, q = c.div(ev[i], E), c.div(ne[i], N)
            iv = add(iv, mul(sub(p, q), core.s_log(c.div(p, q))))
            m = div(add(p, q), 2)
            js = add(js, div(add(mul(p, core.s_log(c.div(p, m))),
                                 mul(q, core.s_log(c.div(q, m)))), 2))
    rep = lambda k: reported(c, txt, k)                     # noqa: E731
    c.prove(c.eq(t.iv, iv), "iv")
    c.prove(c.eq(rep("IV (Jeffrey)"), t.iv), "reported iv")
    c.prove(c.eq(t.js, js), "js")
    c.prove(c.eq(rep("JS (Jensen-Shannon)"), t.js), "reported js")
    c.prove(c.eq(rep("Gini index"), t.gini), "reported gini")
    c.prove(c.eq(rep("KS"), t.ks), "reported ks")
    c.prove(c.eq(rep("Quality score"), t.quality_score), "reported qs")
    # homogeneity over all rows
    T = add(N, E)
    h = 0
    for i in range(n):
        s = c.div(add(ne[i], ev[i]), T)
        h = add(h, mul(s, s))
    hn = div(sub(h, 1 / n), 1 - 1 / n)
    c.prove(c.eq(rep("HHI"), h), "reported hhi")
    c.prove(c.eq(rep("HHI (normalized)"), hn), "reported normalized hhi")
    # tests between consecutive clean bins, without others
    sp = sstats(c)
    q = sub(1, rep("HHI (normalized)"))
    for i in range(nclean - 1):
        obs = arr(c, [ne[i:i + 2], ev[i:i + 2]], int)
        if test == "chi2":
            _, p = sp.chi2_contingency(obs, correction=False)[:2]
        else:
            _, p = sp.fisher_exact(obs)
        q = mul(q, sub(1, p))
    if c.symbolic:
        c.prove(c.eq(t.quality_score, mul(qs1(c, t.iv), q)),
                "quality score")
    else:
        # avoid the rounding of the printed value
        q = (1 - hn)
        for i in range(nclean - 1):
            obs = np.array([ne[i:i + 2], ev[i:i + 2]])
            p = sp.chi2_contingency(obs, correction=False)[1] \
                if test == "chi2" else sp.fisher_exact(obs)[1]
            q *= 1 - p
        c.prove(c.eq(t.quality_score, qs1(c, t.iv) * q), "quality score")
    if nclean >= 2:
        x2 = sp.chi2_contingency(arr(c, [ne[:nclean], ev[:nclean]], int),
                                 correction=False)[0]
        v = rep("Cramer's V")
        m = add(total(ne[:nclean]), total(ev[:nclean]))
        if c.symbolic:
            c.assume(core.s_ge(x2, 0))
            c.prove(c.eq(mul(mul(v, v), m), x2), "Cramer's V")
        else:
            c.prove(c.eq(v * v, x2 / m), "Cramer's V")


def body_gks(c, nclean=2, special=None, hi=50, zero=True):
    ns = n_special(special)
    n = nclean + ns + 1
    zr = set(range(nclean, n)) if zero else set()
    ne = [c.int("n%d" % i, 0 if i in zr else 1, hi) for i in range(n)]
    ev = [c.int("e%d" % i, 0 if i in zr else 1, hi) for i in range(n)]
    t = BinningTable("x", "numerical", CODES[special],
                     np.array(SPL[:nclean - 1]), arr(c, ne, int),
                     arr(c, ev, int))
    with patch.cut_metrics(c, ("hellinger", "triangular", "jeffrey",
                               "jensen_shannon", "hhi")):
        t.build()
    c.cover("run")
    N, E = total(ne), total(ev)
    den = mul(N, E)
    c.prove(c.eq(mul(t.gini, den), gini_def(c, ev, ne)), "gini")
    # KS: largest distance of the cumulative shares along the rows
    a, ds = 0, []
    for i in range(n):
        a = add(a, sub(c.div(ev[i], E), c.div(ne[i], N)))
        ds.append(absv(a))
    c.prove(c.And([c.ge(t.ks, d) for d in ds]), "ks")
    c.prove(c.Or([c.eq(t.ks, d) for d in ds]), "ks")


def body_hell(c, nclean=2, hi=50):
    n = nclean + 2
    ne = [c.int("n%d" % i, int(i < nclean), hi) for i in range(n)]
    ev = [c.int("e%d" % i, int(i < nclean), hi) for i in range(n)]
    t = BinningTable("x", "numerical", None, np.array(SPL[:nclean - 1]),
                     arr(c, ne, int), arr(c, ev, int))
    with patch.cut_metrics(c, ("gini", "jeffrey", "jensen_shannon", "hhi")):
        t.build()
    c.cover("run")
    N, E = total(ne), total(ev)
    he, tr = 0, 0
    for i in range(n):
        if bool(both(ne[i], ev[i])):
            p, q = c.div(ev[i], E), c.div(ne[i], N)
            u = sub(core.s_sqrt(p), core.s_sqrt(q))
            he = add(he, div(mul(u, u), 2))
            tr = add(tr, c.div(mul(sub(p, q), sub(p, q)), add(p, q)))
    c.prove(c.near(t.hellinger, he), "hellinger")
    c.prove(c.near(t.triangular, tr), "triangular")


def body_cont(c, nclean=2, special=None, hi=20):
    """analysis of a continuous table"""
    ns = n_special(special)
    n = nclean + ns + 1
    cnt = [c.int("n%d" % i, 1, hi) for i in range(n)]
    s = [c.real("s%d" % i, -hi, hi) for i in range(n)]
    sd = [c.real("d%d" % i, 0, hi) for i in range(n)]
    z = [0] * n
    t = ContinuousBinningTable(
        "x", "numerical", CODES[special], np.array(SPL[:nclean - 1]),
        arr(c, cnt, int), arr(c, s), arr(c, sd), np.zeros(n), np.zeros(n),
        np.array(z))
    t.build()
    txt = printed(c, t.analysis)
    c.cover("run")
    T, S = total(cnt), total(s)
    tm = c.div(S, T)
    w, iv, h = 0, 0, 0
    for i in range(n):
        d = absv(sub(c.div(s[i], cnt[i]), tm))
        w = add(w, d)
        sh = c.div(cnt[i], T)
        iv = add(iv, mul(d, sh))
        h = add(h, mul(sh, sh))
    rep = lambda k: reported(c, txt, k)                     # noqa: E731
    c.prove(c.eq(rep("IV"), iv), "reported iv")
    c.prove(c.eq(rep("WoE"), w), "reported woe")
    hn = div(sub(h, 1 / n), 1 - 1 / n)
    c.prove(c.eq(rep("HHI"), h), "reported hhi")
    c.prove(c.eq(rep("HHI (normalized)"), hn), "reported hhi normalized")
    if bool(core.s_eq(tm, 0)):
        r = w
    else:
        r = c.div(w, absv(tm))
    c.prove(c.eq(rep("WoE (normalized)"), r), "reported normalized woe")
    sp = sstats(c)
    q = sub(1, hn)
    for i in range(nclean - 1):
        p = sp.ttest_ind_from_stats(
            c.div(s[i], cnt[i]), sd[i], cnt[i], c.div(s[i + 1], cnt[i + 1]),
            sd[i + 1], cnt[i + 1], False)[1]
        if not c.symbolic and p != p:
            return
        q = mul(q, sub(1, p))
    c.prove(c.eq(rep("Quality score"), t.quality_score), "reported qs")
    if not core.is_sym(r) and r == 0:
        s1 = 0
    else:
        s1 = core.s_max(sub(1, c.div(1, r)), 0)
    c.prove(c.eq(t.quality_score, mul(s1, q)), "quality score")


def body_multi(c, nclean=2, special=None, hi=20, k=3):
    ns = n_special(special)
    n = nclean + ns + 1
    ev = [[c.int("e%d_%d" % (i, j), 1, hi) for j in range(k)]
          for i in range(n)]
    c.meta["lazy"] = True
    t = MulticlassBinningTable("x", CODES[special],
                               np.array(SPL[:nclean - 1]), arr(c, ev, int),
                               ["c%d" % j for j in range(k)])
    t.build()
    c.meta["lazy"] = False
    txt = printed(c, t.analysis)
    c.meta["lazy"] = True
    c.cover("run")
    rep = lambda q: reported(c, txt, q)                     # noqa: E731
    T = total([total(r) for r in ev])
    h = 0
    for r in ev:
        sh = c.div(total(r), T)
        h = add(h, mul(sh, sh))
    hn = div(sub(h, 1 / n), 1 - 1 / n)
    c.prove(c.eq(rep("HHI"), h), "reported hhi")
    c.prove(c.eq(rep("HHI (normalized)"), hn), "reported hhi normalized")
    # generalised divergence of the k distributions of the rows
    col = [total([r[j] for r in ev]) for j in range(k)]

    def xl(v):
        if c.symbolic:
            return patch.SpecialProxy().xlogy(v, v)
        return v * math.log(v)
    js = 0
    for r in ev:
        m = 0
        for j in range(k):
            p = c.div(r[j], col[j])
            js = add(js, div(xl(p), k))
            m = add(m, div(p, k))
        js = sub(js, xl(m))
    c.prove(c.eq(t.js, js), "js")
    c.prove(c.eq(rep("JS (Jensen-Shannon)"), t.js), "reported js")
    sp = sstats(c)
    q = sub(1, hn)
    for i in range(nclean - 1):
        p = sp.chi2_contingency(arr(c, ev[i:i + 2], int),
                                correction=False)[1]
        q = mul(q, sub(1, p))
    c.prove(c.eq(t.quality_score,
                   mul(qs1(c, div(t.js, math.log(k))), q)), "quality score")
    if nclean >= 2:
        x2 = sp.chi2_contingency(arr(c, ev[:nclean], int),
                                 correction=False)[0]
        v = rep("Cramer's V")
        m = total([total(r) for r in ev[:nclean]])
        m = mul(m, min(k - 1, nclean - 1))
        if c.symbolic:
            c.assume(core.s_ge(x2, 0))
            c.prove(c.eq(mul(mul(v, v), m), x2), "Cramer's V")
        else:
            c.prove(c.eq(v * v, x2 / m), "Cramer's V")


def harnesses(tier):
    H = []

    def mk(name, f, bounds="", tier="quick", weight=1, **p):
        H.append(Harness(name, lambda c: f(c, **p), bounds, expect=("run",),
                         tier=tier, weight=weight))
    CB = "counts in [0,50]"
    mk("gini 2", body_gini, CB, n=2)
    mk("gini 3", body_gini, CB, n=3, zero=False)
    mk("gini 3 zero", body_gini, CB, n=3, tier="thorough")
    mk("gini 4", body_gini, CB, n=4, zero=False, tier="thorough", weight=3)
    mk("gini order", body_gini_perm, CB, n=2)
    mk("gini order 3", body_gini_perm, CB, n=3, tier="thorough")
    for w in ("jeffrey", "kullback_leibler", "jensen_shannon", "triangular",
              "hellinger"):
        mk(w, body_div, "shares in (0,1]", which=w)
    for w in ("triangular", "hellinger"):
        mk(w + " zero", body_zero, "shares in [0,1]", which=w)
    for n in (1, 2, 3, 5):
        mk("hhi %d" % n, body_hhi, "shares in [0,1]", n=n)
    for k in ("binary", "multiclass", "continuous"):
        for n in (0, 1, 2):
            mk("quality %s %d" % (k, n), body_qs, "p-values in [0,1]",
               kind=k, n=n)
    mk("test of proportions", body_props, CB)
    for s in (None, "list", "dict"):
        for n in (1, 2, 3):
            mk("table %d %s" % (n, s), body_table, CB, nclean=n, special=s,
               test="chi2" if n != 2 else "fisher",
               tier="quick" if (n, s) in ((2, None), (2, "dict"),
                                          (1, None)) else "thorough")
    mk("table cat", body_table, CB, nclean=2, cat=True)
    mk("table cat others", body_table, CB, nclean=2, cat=True, others=True)
    mk("table zero", body_table, CB, nclean=2, zero=True)
    mk("table gini ks 1", body_gks, CB, nclean=1)
    mk("table gini ks 2", body_gks, CB, nclean=2, zero=False,
       tier="thorough")
    mk("table gini ks 2 dict", body_gks, CB, nclean=2, special="dict",
       zero=False, tier="thorough")
    mk("table gini ks 3", body_gks, CB, nclean=3, zero=False,
       tier="thorough")
    mk("table hellinger", body_hell, CB)
    for n in (1, 2, 3):
        mk("continuous table %d" % n, body_cont, CB, nclean=n,
           tier="quick" if n == 2 else "thorough")
    mk("continuous table dict", body_cont, CB, nclean=2, special="dict")
    for n in (1, 2, 3):
        mk("multiclass table %d" % n, body_multi, CB, nclean=n,
           tier="quick" if n == 2 else "thorough")
    mk("multiclass table dict", body_multi, CB, nclean=2, special="dict",
       k=2)
    return H
