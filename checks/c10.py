"""C10: the columns of the binning tables follow their definitions."""

from optbinning.binning.binning_statistics import (
    BinningTable, ContinuousBinningTable, MulticlassBinningTable)
from optbinning.binning.multidimensional.binning_statistics_2d import (
    BinningTable2D, ContinuousBinningTable2D)

from .tr import *

ASSUMPTIONS = ["tables are built from the counts a fit hands over; C04 ties "
               "the counts to the records"]

CODES = {None: None, "list": [-9, -8], "dict": {"A": -9, "B": [-8, -7]}}


def counts(c, n, hi, zero):
    """n rows of counts; rows in `zero` may be zero"""
    ne = [c.int("n%d" % i, 0 if i in zero else 1, hi) for i in range(n)]
    ev = [c.int("e%d" % i, 0 if i in zero else 1, hi) for i in range(n)]
    return ne, ev


def ratio(c, a, b):
    return c.div(a, b)


def both(a, b):
    return core.s_and(core.s_gt(a, 0), core.s_gt(b, 0))


def check_binary(c, df, ne, ev, add_totals, metrics=True):
    n = len(ne)
    N, E = total(ne), total(ev)
    T = add(N, E)
    col = {k: lst(df[k]) for k in df.columns}
    c.prove(len(col["Count"]) == n + int(add_totals), "number of rows")
    tiv, tjs = 0, 0
    for i in range(n):
        m = add(ne[i], ev[i])
        c.prove(c.eq(col["Count"][i], m), "Count = Non-event + Event")
        c.prove(c.eq(col["Non-event"][i], ne[i]), "Non-event")
        c.prove(c.eq(col["Event"][i], ev[i]), "Event")
        c.prove(c.near(col["Count (%)"][i], c.div(m, T)), "Count (%)")
        if bool(both(ne[i], ev[i])):
            p, q = c.div(ev[i], E), c.div(ne[i], N)
            woe = core.s_log(c.div(q, p))
            c.prove(c.near(col["Event rate"][i], c.div(ev[i], m)),
                    "Event rate")
            c.prove(c.near(col["WoE"][i], woe), "WoE")
            iv = mul(sub(q, p), woe)
            c.prove(c.near(col["IV"][i], iv), "IV")
            if metrics:
                a = div(add(p, q), 2)
                js = div(add(mul(p, core.s_log(c.div(p, a))),
                             mul(q, core.s_log(c.div(q, a)))), 2)
                c.prove(c.near(col["JS"][i], js), "JS")
        else:
            for k in ("Event rate", "WoE", "IV", "JS"):
                c.prove(c.eq(col[k][i], 0), k + " of a pure row is zero")
        tiv, tjs = add(tiv, col["IV"][i]), add(tjs, col["JS"][i])
    if add_totals:
        for k, v in (("Count", T), ("Non-event", N), ("Event", E),
                     ("Count (%)", 1), ("Event rate", c.div(E, T))):
            c.prove(c.near(col[k][n], v), k + " of the totals")
        c.prove(c.near(col["IV"][n], tiv), "IV of the totals")
        if metrics:
            c.prove(c.near(col["JS"][n], tjs), "JS of the totals")


NAMES = {None: ["Special"], "list": ["Special"], "dict": ["A", "B"]}


def check_names(c, df, splits, special, digits, add_totals):
    f = "{:.%df}" % digits
    lo = ["-inf"] + [f.format(s) for s in splits]
    hi = [f.format(s) for s in splits] + ["inf"]
    exp = ["(-inf, %s)" % hi[0]] + [
        "[%s, %s)" % p for p in list(zip(lo, hi))[1:]]
    exp += NAMES[special] + ["Missing"] + ([""] if add_totals else [])
    c.prove([str(v) for v in lst(df["Bin"])] == exp, "labels of the rows")


CUT = ("gini", "hhi", "hellinger", "triangular", "jensen_shannon")
SPL = [-1.25, 0.5, 2.0]


def body_binary(c, nclean=2, special=None, hi=1000, digits=2,
                add_totals=True, metrics=True):
    ns = n_special(special)
    n = nclean + ns + 1
    ne, ev = counts(c, n, hi, set(range(nclean, n)))
    with patch.cut_metrics(c, CUT[:4] if metrics else CUT):
        t = BinningTable(
            name="x", dtype="numerical", special_codes=CODES[special],
            splits=np.array(SPL[:nclean - 1]), n_nonevent=arr(c, ne, int),
            n_event=arr(c, ev, int))
        df = t.build(show_digits=digits, add_totals=add_totals)
        c.cover("built")
        check_binary(c, df, ne, ev, add_totals, metrics)
        check_names(c, df, SPL[:nclean - 1], special, digits, add_totals)
        c.prove(c.near(t.iv, total(lst(df["IV"])[:n])), "iv property")


def body_binary_cat(c, others=True, hi=100):
    n = 2 + int(others) + 2
    ne, ev = counts(c, n, hi, {n - 1, n - 2})
    with patch.cut_metrics(c, CUT):
        t = BinningTable(
            name="x", dtype="categorical", special_codes=None,
            splits=np.array([1.5]), n_nonevent=arr(c, ne, int),
            n_event=arr(c, ev, int),
            categories=np.array(["b", "a", "c"], dtype=object),
            cat_others=np.array(["o"], dtype=object) if others else [])
        df = t.build()
        c.cover("built")
        check_binary(c, df, ne, ev, True, False)
        got = [sorted(map(str, v)) for v in lst(df["Bin"])[:n - 2]]
        c.prove(got == [["a", "b"], ["c"]] + ([["o"]] if others else []),
                "categories of the rows")


def body_cont(c, nclean=2, special=None, hi=100, add_totals=True,
              full=False):
    ns = n_special(special)
    n = nclean + ns + 1
    # full: the special and missing rows have records, hence extremes
    nx = n if full else nclean
    cnt = [c.int("n%d" % i, 1 if i < nx else 0, hi) for i in range(n)]
    sums = [c.real("s%d" % i, -hi, hi) for i in range(n)]
    for i in range(nclean, n):
        c.assume(core.s_or(core.s_gt(cnt[i], 0), core.s_eq(sums[i], 0)))
    z = [c.int("z%d" % i, 0, hi) for i in range(n)]
    mn = [c.real("a%d" % i, -hi, hi) if i < nx else nan()
          for i in range(n)]
    mx = [c.real("b%d" % i, -hi, hi) if i < nx else nan()
          for i in range(n)]
    st = [1.0 + i for i in range(n)]
    t = ContinuousBinningTable(
        name="x", dtype="numerical", special_codes=CODES[special],
        splits=np.array(SPL[:nclean - 1]), n_records=arr(c, cnt, int),
        sums=arr(c, sums), stds=np.array(st), min_target=arr(c, mn),
        max_target=arr(c, mx), n_zeros=arr(c, z, int))
    with patch.cut_metrics(c):
        df = t.build(add_totals=add_totals)
    c.cover("built")
    check_cont(c, df, cnt, sums, add_totals)
    check_names(c, df, SPL[:nclean - 1], special, 2, add_totals)
    for i in range(n):
        c.prove(c.eq(df["Zeros count"].tolist()[i] if not c.symbolic else
                     lst(df["Zeros count"])[i], z[i]), "Zeros count")
        c.prove(c.eq(lst(df["Std"])[i], st[i]), "Std")
        if i < nx:
            c.prove(c.eq(lst(df["Min"])[i], mn[i]), "Min")
            c.prove(c.eq(lst(df["Max"])[i], mx[i]), "Max")
    if add_totals:
        tm, tM = lst(df["Min"])[n], lst(df["Max"])[n]
        c.prove(c.And([core.s_le(tm, v) for v in mn[:nx]]),
                "Min of the totals")
        c.prove(c.Or([c.eq(tm, v) for v in mn[:nx]]), "Min of the totals")
        c.prove(c.And([core.s_ge(tM, v) for v in mx[:nx]]),
                "Max of the totals")
        c.prove(c.Or([c.eq(tM, v) for v in mx[:nx]]), "Max of the totals")
        c.prove(c.eq(lst(df["Zeros count"])[n], total(z)),
                "Zeros count of the totals")
    c.prove(c.near(t.iv, total(lst(df["IV"])[:n])), "iv property")
    c.prove(c.near(t.woe, total([absv(v) for v in lst(df["WoE"])[:n]])),
            "woe property")


def check_cont(c, df, cnt, sums, add_totals):
    n = len(cnt)
    T, S = total(cnt), total(sums)
    col = {k: lst(df[k]) for k in df.columns}
    tm = c.div(S, T)
    c.prove(len(col["Count"]) == n + int(add_totals), "number of rows")
    tw, ti = 0, 0
    for i in range(n):
        c.prove(c.eq(col["Count"][i], cnt[i]), "Count")
        c.prove(c.eq(col["Sum"][i], sums[i]), "Sum")
        c.prove(c.near(col["Count (%)"][i], c.div(cnt[i], T)), "Count (%)")
        if bool(core.s_gt(cnt[i], 0)):
            m = c.div(sums[i], cnt[i])
        else:
            m = 0
        c.prove(c.near(col["Mean"][i], m), "Mean")
        c.prove(c.near(col["WoE"][i], sub(m, tm)), "WoE")
        iv = mul(absv(sub(m, tm)), c.div(cnt[i], T))
        c.prove(c.near(col["IV"][i], iv), "IV")
        tw, ti = add(tw, absv(col["WoE"][i])), add(ti, col["IV"][i])
    if add_totals:
        for k, v in (("Count", T), ("Sum", S), ("Mean", tm),
                     ("Count (%)", 1), ("WoE", tw), ("IV", ti)):
            c.prove(c.near(col[k][n], v), k + " of the totals")


def body_multi(c, nclean=2, special=None, hi=100, add_totals=True, zero=False,
               k=3):
    ns = n_special(special)
    n = nclean + ns + 1
    ev = [[c.int("e%d_%d" % (i, j), 0 if i >= nclean or zero else 1, hi)
           for j in range(k)] for i in range(n)]
    if zero:
        for j in range(k):
            c.assume(core.s_gt(ev[0][j] if j else ev[1][j], 0))
    classes = ["c0", "c1", "c2"][:k]
    c.meta["lazy"] = True
    t = MulticlassBinningTable(
        name="x", special_codes=CODES[special],
        splits=np.array(SPL[:nclean - 1]), n_event=arr(c, ev, int),
        classes=classes)
    with patch.cut_metrics(c):
        df = t.build(add_totals=add_totals)
    c.cover("built")
    col = {q: lst(df[q]) for q in df.columns}
    row = [total(r) for r in ev]
    T = total(row)
    for i in range(n):
        c.prove(c.eq(col["Count"][i], row[i]), "Count")
        c.prove(c.near(col["Count (%)"][i], c.div(row[i], T)), "Count (%)")
        for j in range(k):
            c.prove(c.eq(col["Event_c%d" % j][i], ev[i][j]), "Event")
            r = c.div(ev[i][j], row[i]) if bool(
                core.s_gt(ev[i][j], 0)) else 0
            c.prove(c.near(col["Event_rate_c%d" % j][i], r), "Event rate")
    if add_totals:
        c.prove(c.eq(col["Count"][n], T), "Count of the totals")
        for j in range(k):
            tj = total([r[j] for r in ev])
            c.prove(c.eq(col["Event_c%d" % j][n], tj), "Event of the totals")
            c.prove(c.near(col["Event_rate_c%d" % j][n], c.div(tj, T)),
                    "Event rate of the totals")
    check_names(c, df, SPL[:nclean - 1], special, 2, add_totals)


P2 = np.array([[0, 1], [0, 2]])
BX = [[-np.inf, np.inf], [-np.inf, 0.5], [0.5, np.inf]]
BY = [[-np.inf, 1.0], [1.0, np.inf], [1.0, np.inf]]


def body_2d(c, target="binary", hi=100, xy=False, add_totals=True):
    if target == "binary":
        ne, ev = counts(c, 5, hi, {3, 4})
        D = [[c.div(ev[k], add(ev[k], ne[k])) for k in r]
             for r in P2.tolist()]
        with patch.cut_metrics(c, CUT):
            t = BinningTable2D(
                name_x="x", name_y="y", dtype_x="numerical",
                dtype_y="numerical", splits_x=list(BX), splits_y=list(BY),
                m=2, n=2, n_nonevent=arr(c, ne, int), n_event=arr(c, ev, int),
                D=arr(c, D), P=P2)
            df = t.build(show_bin_xy=xy, add_totals=add_totals)
        c.cover("built")
        check_binary(c, df, ne, ev, add_totals, False)
    else:
        cnt = [c.int("n%d" % i, 1 if i < 3 else 0, hi) for i in range(5)]
        s = [c.real("s%d" % i, -hi, hi) for i in range(5)]
        for i in (3, 4):
            c.assume(core.s_or(core.s_gt(cnt[i], 0), core.s_eq(s[i], 0)))
        D = [[c.div(s[k], cnt[k]) for k in r] for r in P2.tolist()]
        with patch.cut_metrics(c):
            t = ContinuousBinningTable2D(
                name_x="x", name_y="y", dtype_x="numerical",
                dtype_y="numerical", splits_x=list(BX), splits_y=list(BY),
                m=2, n=2, n_records=arr(c, cnt, int), sums=arr(c, s),
                stds=np.arange(5.0), D=arr(c, D), P=P2)
            df = t.build(show_bin_xy=xy, add_totals=add_totals)
        c.cover("built")
        check_cont(c, df, cnt, s, add_totals)
    if xy:
        exp = [r"(-inf, inf) $\cup$ (-inf, 1.00)",
               r"(-inf, 0.50) $\cup$ [1.00, inf)",
               r"[0.50, inf) $\cup$ [1.00, inf)", "Special", "Missing"]
        c.prove([str(v) for v in lst(df["Bin"])[:5]] == exp, "labels")
    else:
        ex = ["(-inf, inf)", "(-inf, 0.50)", "[0.50, inf)", "Special",
              "Missing"]
        ey = ["(-inf, 1.00)", "[1.00, inf)", "[1.00, inf)", "Special",
              "Missing"]
        c.prove([str(v) for v in lst(df["Bin x"])[:5]] == ex, "labels x")
        c.prove([str(v) for v in lst(df["Bin y"])[:5]] == ey, "labels y")


def harnesses(tier):
    H = []

    def mk(name, f, tier="quick", weight=1, **p):
        H.append(Harness(name, lambda c: f(c, **p),
                         "counts in [0,%d]" % p.get("hi", 100),
                         expect=("built",), tier=tier, weight=weight))
    for s in (None, "list", "dict"):
        for n in (1, 2, 3, 4):
            mk("binary bins=%d special=%s" % (n, s), body_binary, nclean=n,
               special=s, hi=1000, metrics=n <= 2,
               tier="quick" if n == 2 or (s == "dict" and n in (1, 3))
               else "thorough")
    mk("binary digits", body_binary, nclean=3, digits=1, add_totals=False,
       metrics=False)
    mk("binary digits 3", body_binary, nclean=2, digits=3, special="dict",
       metrics=False)
    for o in (True, False):
        mk("binary categorical others=%s" % o, body_binary_cat, others=o)
    for s in (None, "list", "dict"):
        for n in (1, 2, 3):
            mk("continuous bins=%d special=%s" % (n, s), body_cont, nclean=n,
               special=s, add_totals=(n != 2 or s == "dict"),
               tier="quick" if n == 2 or (n == 3 and s is None) else
               "thorough")
        mk("continuous all rows special=%s" % s, body_cont, nclean=2,
           special=s, full=True, tier="quick" if s != "dict" else "thorough")
    for s in (None, "list", "dict"):
        for n in (1, 2, 3):
            mk("multiclass bins=%d special=%s" % (n, s), body_multi,
               nclean=n, special=s, add_totals=n != 1,
               tier="quick" if (n, s) in ((2, None), (1, "list")) else
               "thorough")
    mk("multiclass zeros", body_multi, zero=True, k=2)
    for t in ("binary", "continuous"):
        mk("2d " + t, body_2d, target=t)
        mk("2d xy " + t, body_2d, target=t, xy=True, add_totals=False)
    return H
