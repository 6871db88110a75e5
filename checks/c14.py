"""C14: counterfactual explanations."""

import itertools

import pandas as pd

from optbinning.scorecard import Counterfactual

from .lib import *
from . import sc as S
from symex import ortx

z3 = core.z3

ASSUMPTIONS = [
    "the scorecard is the real one over stand-ins for binning process and "
    "linear model (arbitrary bin values, listed coefficients); training data "
    "of the explainer are concrete",
    "outcome type probability (needs a piecewise approximation fitted by "
    "ropwr) is not covered"]

COEF = {1: [1.5], 2: [1.5, -0.75], 3: [1.5, -0.75, 2.0]}
EXPL = {}


def explainer(target, p, special_missing=False):
    """an explainer fitted on concrete data"""
    key = target, p, special_missing
    if key not in EXPL:
        base = [-1.25, 0.5, 1.75, 0.25, -0.5]
        vs = [S.Var("x%d" % j, target, [v + 0.1 * j for v in base], 1, None)
              for j in range(p)]
        S._CUR.clear()
        S._CUR.update(vars=vs, sym=False, coef=COEF[p], intercept=0.375)
        sc = S.fit(None, vs, target)
        rng = np.random.RandomState(0)
        X = pd.DataFrame({"x%d" % j: rng.randint(0, 3, 20).astype(float)
                          for j in range(p)})
        EXPL[key] = Counterfactual(sc, special_missing).fit(X)
    return EXPL[key]


def scene(c, target, nb, special, ms, mm, rows, hi=3, fixed=False):
    """scorecard with arbitrary bin values and a record to be explained"""
    vs = []
    base = [-1.25, 0.5, 1.75, 0.25, -0.5, 2.25]
    for j, n in enumerate(nb):
        nsp = len(special) if isinstance(special, dict) else 1
        vals = [c.real("v%d_%d" % (j, i), -hi, hi) if not fixed
                else base[i] + 0.1 * j for i in range(n + nsp + 1)]
        vs.append(S.Var("x%d" % j, target, vals, nsp, special))
    S._CUR.clear()
    S._CUR.update(vars=vs, sym=c.symbolic, coef=COEF[len(nb)],
                  intercept=0.375)
    sc = S.fit(c, vs, target, ms, mm)
    own = [int(c.choice("bin of x%d" % j, list(rows if rows else range(n))))
           for j, n in enumerate(nb)]
    own = [i if i >= 0 else len(v.vals) + i for i, v in zip(own, vs)]
    return vs, sc, own


def activation(vs, coef, pick, ms, mm):
    t = 0.375
    for v, k, i in zip(vs, coef, pick):
        t = add(t, mul(k, v.value(i, ms, mm)))
    return t


def options(v, i, special_missing):
    """rows a variable of a record in row i may be changed to"""
    n = len(v.vals) if special_missing else v.n
    return [j for j in range(n) if j != i]


def outcome_ok(c, t, y, target, hard, m=0.0):
    if target == "binary":
        return core.s_ge(t, 1e-6 + m) if y == 1 else core.s_le(t, -m)
    l = []
    if "min_outcome" in hard:
        l.append(core.s_ge(t, add(y, m)))
    if "max_outcome" in hard:
        l.append(core.s_le(t, sub(y, m)))
    return c.And(l)


def run(c, target, nb, y, rows, special, special_missing, ms, mm, changes,
        actionable, n_cf, hard, fixed=False, **kw):
    cf = explainer(target, len(nb), special_missing)
    vs, sc, own = scene(c, target, nb, special, ms, mm, rows, fixed=fixed)
    cf.scorecard = sc
    for v in vs:                     # bins of different values
        for a, b in itertools.combinations(range(len(v.vals)), 2):
            if not fixed and (special_missing or max(a, b) < v.n):
                c.assume(core.s_ne(v.value(a, ms, mm), v.value(b, ms, mm)))
    if target == "continuous" and y is None:
        y = c.real("y", -20, 20)
    act = None if actionable is None else ["x%d" % i for i in actionable]
    q = pd.DataFrame({v.name: [float(i)] for v, i in zip(vs, own)})
    cf.generate(q, y, "binary" if target == "binary" else "continuous",
                n_cf, max_changes=changes, actionable_features=act,
                hard_constraints=list(hard) or None, **kw)
    return cf, vs, own, y, q


def admissible(own, vs, special_missing, changes, actionable):
    """selections of rows within the limits: tuples of rows"""
    out = []
    for pick in itertools.product(*[[i] + (
            options(v, i, special_missing)
            if actionable is None or j in actionable else [])
            for j, (v, i) in enumerate(zip(vs, own))]):
        if sum(a != b for a, b in zip(pick, own)) <= changes:
            out.append(pick)
    return out


def compatible(c, picks, own, hard):
    """diversity of several explanations"""
    for a, b in itertools.combinations(picks, 2):
        fa = [i for i in range(len(own)) if a[i] != own[i]]
        fb = [i for i in range(len(own)) if b[i] != own[i]]
        if "diversity_features" in hard and fa == fb:
            return False
        if "diversity_values" in hard and any(
                a[i] == b[i] for i in set(fa) & set(fb)):
            return False
    return True


def body_sound(c, target="binary", nb=(2, 2), y=1, rows=None, special=None,
               special_missing=False, ms=0, mm=0, changes=1, actionable=None,
               n_cf=1, hard=(), prob=True, **kw):
    """explanations satisfy the request and report the scorecard's outcome"""
    cf, vs, own, y, q = run(c, target, nb, y, rows, special, special_missing,
                            ms, mm, changes, actionable, n_cf, hard, **kw)
    if not c.symbolic:
        status_ok(c, cf.status)
    full = cf.display(show_outcome=True)
    part = cf.display(show_only_changes=True)
    c.prove(len(full) == n_cf, "number of explanations")
    coef = COEF[len(nb)]
    picks = []
    for r in range(n_cf):
        pick = []
        for v, i in zip(vs, own):
            got, short = full[v.name].values[r], part[v.name].values[r]
            if isinstance(got, str):
                c.prove(got in v.bins, "values of an explanation are bins")
                j = v.bins.index(got)
                c.prove(j in options(v, i, special_missing),
                        "a changed feature moves to another allowed bin")
                c.prove(short == got, "changes are displayed")
                c.cover("changed")
                pick.append(j)
            else:
                c.prove(float(got) == float(i) and short == "-",
                        "other features keep the value of the record")
                c.cover("kept")
                pick.append(i)
        n = sum(a != b for a, b in zip(pick, own))
        c.prove(n <= changes, "max_changes")
        c.prove(actionable is None or all(
            a == b or j in actionable
            for j, (a, b) in enumerate(zip(pick, own))),
            "only actionable features change")
        t = activation(vs, coef, pick, ms, mm)
        out = full["outcome"].values[r]
        if target == "binary" and not prob:
            pass                    # reported outcome: continuous variants
        elif target == "binary":
            c.prove(c.near(out, c.div(1.0, add(1.0, core.s_exp(mul(-1, t))))),
                    "reported probability is that of the scorecard")
        else:
            c.prove(c.near(out, t), "reported outcome is that of the "
                    "scorecard")
        c.prove(outcome_ok(c, t, y, target, hard, -5e-7),
                "the explanation has the desired outcome")
        picks.append(tuple(pick))
    c.prove(compatible(c, picks, own, hard), "diversity of explanations")


def objective_of(c, cf, vs, own, picks, ms, mm, weights, y):
    """the distance the documentation defines"""
    tot = 0
    F, mu, wr = cf._F, cf._mu, cf._wrange
    p = len(vs)
    for pick in picks:
        x = [v.value(i, ms, mm) for v, i in zip(vs, own)]
        xp = [v.value(i, ms, mm) for v, i in zip(vs, pick)]
        if "proximity" in weights:
            tot = add(tot, mul(weights["proximity"], c.sum(
                [mul(float(wr[i]), absv(sub(x[i], xp[i])))
                 for i in range(p)])))
        if "closeness" in weights:
            for i in range(p):
                e = c.sum([mul(float(F[j, i]), sub(xp[j], float(mu[j])))
                           for j in range(i, p)])
                tot = add(tot, mul(weights["closeness"], absv(e)))
        if "diff_outcome" in weights:
            t = activation(vs, COEF[p], pick, ms, mm)
            tot = add(tot, mul(weights["diff_outcome"], absv(sub(t, y))))
    for a, b in itertools.combinations(picks, 2):
        for i in range(p):
            ca, cb = a[i] != own[i], b[i] != own[i]
            if "diversity_features" in weights:
                tot = sub(tot, mul(weights["diversity_features"],
                                   int(ca != cb)))
            if "diversity_values" in weights:
                n = 0 if a[i] == b[i] else int(ca) + int(cb)
                tot = sub(tot, mul(weights["diversity_values"], n))
    return tot


def body_complete(c, target="binary", nb=(2, 2), y=1, rows=None, special=None,
                  special_missing=False, ms=0, mm=0, changes=1,
                  actionable=None, n_cf=1, hard=(), value=False, **kw):
    """every selection within the request is considered, at its distance"""
    if c.symbolic:
        c.meta["solve_mode"] = "collect"
        c.meta["force"] = "none"
        c.meta["bits"] = [False] * 200
    cf, vs, own, y, q = run(c, target, nb, y, rows, special, special_missing,
                            ms, mm, changes, actionable, n_cf, hard, **kw)
    coef = COEF[len(nb)]
    label = "a selection within the request is considered"
    vlabel = "the objective is the documented distance"
    weights = dict(kw.get("objectives") or {"proximity": 1, "closeness": 1})
    weights.update(kw.get("soft_constraints") or {})
    sel = [ps for ps in itertools.product(
        admissible(own, vs, special_missing, changes, actionable),
        repeat=n_cf) if compatible(c, ps, own, hard)]

    def valid(ps):
        return c.And([outcome_ok(c, activation(vs, coef, s, ms, mm), y,
                                 target, hard, 2e-6) for s in ps])
    if not c.symbolic:
        ok = cf.status in ("OPTIMAL", "FEASIBLE")
        best = None
        for ps in sel:
            if bool(valid(ps)):
                c.prove(ok, label)
                d = objective_of(c, cf, vs, own, ps, ms, mm, weights, y)
                best = d if best is None else min(d, best)
        if value and best is not None and cf.status == "OPTIMAL":
            full = cf.display()
            ps = []
            for r in range(n_cf):
                ps.append(tuple(
                    v.bins.index(g) if isinstance(g, str) else i
                    for v, i, g in zip(vs, own, [
                        full[v.name].values[r] for v in vs])))
            d = objective_of(c, cf, vs, own, ps, ms, mm, weights, y)
            c.prove(d <= best + 1e-4 * (1 + abs(best)), vlabel)
            try:
                v = cf._optimizer.solver_.Objective().Value()
            except AttributeError:
                return
            c.prove(abs(v - d) <= 1e-4 * (1 + abs(d)), vlabel)
        return
    mod = c.meta["models"][-1]
    c.prove(mod.sense == "min", "the objective is minimized")
    nd = len(mod.decoded)
    for ps in sel:
        bits = []
        for s in ps:
            for v, i, j in zip(vs, own, s):
                opt = options(v, i, special_missing)
                bits += [o == j for o in opt]
        if len(bits) != nd:
            raise core.Unsupported("decoded variables")
        c.cover("changes=%d" % sum(a != b for s in ps
                                   for a, b in zip(s, own)))
        true = objective_of(c, cf, vs, own, ps, ms, mm, weights, y) \
            if value else None
        k = len(mod.cons)
        obj, mod.obj = mod.obj, None
        if value:
            mod._add(core.s_le(obj, add(true, 1e-9)))
        lv = mod.leaves(bits)
        del mod.cons[k:]
        mod.obj = obj
        rep = core.lift(z3.Or(*[a for a, _, _ in lv])) if lv else False
        c.prove(c.Or(c.Not(valid(ps)), rep), vlabel if value else label)
        if value:
            mod.obj = None
            mod._add(core.s_le(obj, sub(true, 1e-9)))
            lv = mod.leaves(bits)
            del mod.cons[k:]
            mod.obj = obj
            less = core.lift(z3.Or(*[a for a, _, _ in lv])) if lv else False
            c.prove(c.Not(c.And([valid(ps), less])), vlabel)


def harnesses(tier):
    for t in ("binary", "continuous"):
        for p in (1, 2, 3):
            for sm in (False, True):
                if p > 1:
                    explainer(t, p, sm)
    H = []

    def mk(name, body, tier="quick", expect=(), **p):
        H.append(Harness(
            name, lambda c, p=p, b=body: b(c, **p),
            "bins per variable %s, any distinct bin values in [-3,3], "
            "%d explanation(s)" % (p.get("nb", (2, 2)), p.get("n_cf", 1)),
            expect=expect, tier=tier))
    E = ("changed", "kept")
    cl, px = dict(closeness=1), dict(proximity=1)
    for y in (0, 1):
        mk("sound y=%d" % y, body_sound, y=y, expect=E)
        mk("sound y=%d two changes" % y, body_sound, y=y, changes=2,
           expect=E)
        mk("sound y=%d closeness" % y, body_sound, y=y, objectives=cl,
           expect=E)
        mk("sound y=%d proximity" % y, body_sound, y=y, objectives=px,
           expect=E)
        mk("complete y=%d" % y, body_complete, y=y, changes=2,
           expect=("changes=0", "changes=1", "changes=2"))
        mk("complete y=%d closeness" % y, body_complete, y=y, changes=1,
           objectives=cl, expect=("changes=0", "changes=1"))
    mk("sound actionable", body_sound, actionable=[1], changes=2, nb=(2, 3),
       expect=E)
    mk("complete actionable", body_complete, actionable=[1], changes=2,
       nb=(2, 3), expect=("changes=1",))
    mk("sound 3 variables", body_sound, nb=(2, 2, 2), changes=2,
       actionable=[0, 2], expect=E)
    for ms, mm in ((0, 0.5), ("empirical", "empirical"), (0.75, -1.25)):
        for t, kt in (("binary", dict(prob=False)),
                      ("continuous", dict(y=None, hard=("max_outcome",)))):
            mk("sound special rows %s %s" % (ms, t), body_sound, nb=(2, 1),
               special_missing=True, ms=ms, mm=mm, rows=[0, -1, -2],
               target=t, expect=E, **kt)
            mk("sound special record %s %s" % (ms, t), body_sound, nb=(2, 2),
               ms=ms, mm=mm, rows=[-1, -2], changes=2, target=t, expect=E,
               **kt)
    mk("sound dict specials", body_sound, nb=(2, 2), rows=[0, -2],
       special={"a": -1, "b": -2}, expect=E, prob=False)
    mk("sound dict specials continuous", body_sound, nb=(2, 2), rows=[0, -2],
       special={"a": -1, "b": -2}, expect=E, target="continuous", y=None,
       hard=("min_outcome",))
    mk("sound dict specials rows", body_sound, nb=(2, 1), rows=[0, -2],
       special={"a": -1, "b": -2}, special_missing=True, expect=E,
       ms="empirical", mm=0, prob=False)
    for h in (("min_outcome",), ("max_outcome",),
              ("min_outcome", "max_outcome")):
        mk("sound continuous %s" % "+".join(h), body_sound, y=None,
           target="continuous", hard=h, changes=2, expect=E)
    for h in (("min_outcome",), ("max_outcome",)):
        mk("complete continuous %s" % h[0], body_complete, y=None,
           target="continuous", hard=h, changes=2, expect=("changes=2",))
        mk("sound hierarchical continuous %s" % h[0], body_sound, y=None,
           target="continuous", hard=h, method="hierarchical",
           tier="thorough", expect=E)
    mk("sound hierarchical", body_sound, method="hierarchical", expect=E)
    mk("sound hierarchical order", body_sound, method="hierarchical",
       objectives=dict(closeness=3, proximity=1), y=0, expect=E)
    for h in (("diversity_features",), ("diversity_values",), (),
              ("diversity_features", "diversity_values")):
        nm = "+".join(h) or "free"
        mk("sound multi %s" % nm, body_sound, n_cf=2, hard=h, changes=1,
           expect=E)
        mk("complete multi %s" % nm, body_complete, n_cf=2, hard=h, nb=(2, 1),
           rows=[0], changes=1, fixed=True, expect=("changes=1",))
        mk("complete multi any %s" % nm, body_complete, n_cf=2, hard=h,
           changes=2, expect=("changes=2",), tier="thorough", fixed=True)
    mk("sound multi hierarchical", body_sound, n_cf=2, method="hierarchical",
       hard=("diversity_values",), expect=E, tier="thorough")
    mk("sound multi actionable", body_sound, n_cf=2, changes=2,
       actionable=[0], nb=(2, 2), expect=E)
    mk("sound multi continuous", body_sound, n_cf=2, y=None, changes=1,
       target="continuous", hard=("min_outcome", "diversity_values"),
       expect=E)
    V = dict(value=True)
    mk("value proximity", body_complete, objectives=px, changes=2,
       expect=("changes=2",), **V)
    mk("value closeness", body_complete, objectives=cl, changes=2,
       expect=("changes=2",), **V)
    mk("value both", body_complete, objectives=dict(proximity=2, closeness=3),
       changes=1, expect=("changes=1",), **V)
    mk("value continuous diff", body_complete, target="continuous", y=None,
       objectives=px, soft_constraints=dict(diff_outcome=2), changes=1,
       expect=("changes=1",), **V)
    for t, nb in (("quick", (2, 1)), ("thorough", (2, 2))):
        mk("value multi %s" % t, body_complete, n_cf=2, objectives=px,
           fixed=True, nb=nb, tier=t, rows=[0],
           soft_constraints=dict(diversity_features=1, diversity_values=2),
           changes=1, expect=("changes=1",), **V)
        mk("value multi diff %s" % t, body_complete, n_cf=2, fixed=True,
           target="continuous", y=None, objectives=cl, rows=[0], nb=nb,
           soft_constraints=dict(diff_outcome=1), changes=1, tier=t,
           expect=("changes=1",), **V)
    return H
