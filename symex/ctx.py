"""Execution contexts: symbolic (z3) and concrete (replay on the real code)."""

import decimal
import math
import os
import sys
import time
import traceback

import numpy as np
import z3

from . import core
from .core import (Sym, Fraction, PathAbort, PathCut, Unsupported,
                   Inconclusive, zr, zreal, zb, lift, LOG, EXP)

try:
    import sympy
except ImportError:            # pragma: no cover
    sympy = None


class Stats:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.cut = 0
        self.decisions = 0
        self.feas_queries = 0
        self.queries = 0
        self.discharged = 0
        self.violated = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.trivial = 0
        self.covers = {}
        self.labels = {}
        self.degraded = []
        self.exceptions = {}

    def as_dict(self):
        return dict(paths=self.paths, paths_infeasible=self.aborted,
                    paths_cut=self.cut, decisions=self.decisions,
                    feasibility_queries=self.feas_queries,
                    obligations=self.obligations,
                    obligations_folded=self.trivial,
                    solver_queries=self.queries,
                    discharged=self.discharged, violated=self.violated,
                    undecided=self.unknown,
                    solver_s=round(self.solver_s, 3))


class CounterExample:
    def __init__(self, label, inputs, detail=""):
        self.label = label
        self.inputs = inputs
        self.detail = detail


_FORKS = {} if os.environ.get('VERIF_FORKS') else None
FEAS_TIMEOUT = 4000
PROVE_TIMEOUT = 20000


def _model_num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported("model value {}".format(v))


class BaseCtx:
    symbolic = False

    # logical helpers usable in both modes -------------------------------
    def And(self, *cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
            cs = cs[0]
        r = True
        for c in cs:
            if isinstance(c, Sym):
                r = core.s_and(r, lift(zb(c)))
            elif not c:
                return False
        return r

    def Or(self, *cs):
        if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
            cs = cs[0]
        r = False
        for c in cs:
            if isinstance(c, Sym):
                r = core.s_or(r, lift(zb(c)))
            elif c:
                return True
        return r

    def Not(self, c):
        return core.s_not(c)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def ite(self, c, a, b):
        return core.s_ite(c, a, b)

    def sum(self, xs):
        r = 0
        for x in xs:
            r = core.s_add(r, core.cast(x, int)
                           if isinstance(x, (bool, np.bool_)) else x)
        return r

    def count(self, conds):
        return self.sum([core.s_ite(c, 1, 0) for c in conds])

    def div(self, a, b):
        return core.s_div(a, b)

    def mul(self, a, b):
        return core.s_mul(a, b)


class ConCtx(BaseCtx):
    """Concrete replay: same harness body, real values, unpatched modules."""

    def __init__(self, inputs, tol=1e-7):
        self.inputs = dict(inputs)
        self.failures = []
        self.checked = 0
        self.tol = tol
        self.trace = []
        self.covers = {}
        self.meta = {}
        self.svals = dict(self.inputs.get("__solver__", {}))
        self.nonlinear = False

    def _val(self, name, default):
        if name in self.inputs:
            return self.inputs[name]
        return default

    def real(self, name, lo=None, hi=None):
        d = 0.0 if lo is None else float(lo)
        return float(self._val(name, d))

    def int(self, name, lo=None, hi=None):
        return int(self._val(name, 0 if lo is None else lo))

    def bool(self, name):
        return bool(self._val(name, False))

    def choice(self, name, options):
        return options[int(self._val(name, 0))]

    def assume(self, c):
        if not c:
            raise PathAbort

    def eq(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))

    def near(self, a, b, tol=1e-9):
        return self.eq(a, b)

    def le(self, a, b):
        a, b = float(a), float(b)
        return a <= b + self.tol * max(1.0, abs(a), abs(b))

    def lt(self, a, b):
        return self.le(a, b)

    def ge(self, a, b):
        return self.le(b, a)

    def same(self, a, b):
        """exact agreement (indices, labels, flags)."""
        return bool(a == b)

    def prove(self, cond, label, **kw):
        assert isinstance(label, str) and not isinstance(cond, str)
        self.checked += 1
        if not bool(cond):
            self.failures.append((label, kw.get("info")))

    def fail(self, label, info=None):
        self.failures.append((label, info))

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def feasible(self, cond):
        return bool(cond)

    def log(self, a):
        return core.s_log(a)

    def sqrt(self, a):
        return core.s_sqrt(a)

    def hi_term(self, *a):
        return


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.trace = []        # list of (choice, n_alternatives_left)
        self.depth = 0
        self.inputs = {}       # name -> z3 const
        self.choices = {}
        self.kinds = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", FEAS_TIMEOUT)
        self.solver.set("random_seed", core.SEED)
        self.path = []
        self.quots = {}
        self.qdefs = {}        # name of q var -> (num, den)
        self.logs = {}
        self.exps = {}
        self.sqrts = {}
        self.tokens = {}
        self.nonlinear = False
        self.meta = {}
        self.svals = []        # solver variables in creation order
        self._know = {}
        self.facts = {}        # polynomial -> possible signs
        self._fkeep = []
        self._plains = {}
        self.low = {}          # constant -> (lower bound, strict)
        self.high = {}         # input -> upper bound
        self.uf_tables = {}

    # ------------------------------------------------------------------
    # inputs
    # ------------------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.kinds[name] = "r"
            if lo is not None:
                self._add(v >= core.z3num(float(lo)))
                self.low[v.get_id()] = (float(lo), False)
            if hi is not None:
                self._add(v <= core.z3num(float(hi)))
                self.high[v.get_id()] = Fraction(float(hi))
        return Sym(v, "r")

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = v
            self.kinds[name] = "i"
            if lo is not None:
                self._add(v >= int(lo))
                self.low[v.get_id()] = (int(lo), False)
            if hi is not None:
                self._add(v <= int(hi))
                self.high[v.get_id()] = Fraction(int(hi))
        return Sym(v, "i")

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        self.kinds[name] = "b"
        return Sym(v, "b")

    def choice(self, name, options):
        k = self._decide(len(options))
        self.choices[name] = k
        return options[k]

    def fresh(self, hint, kind="r"):
        n = "{}!{}".format(hint, len(self.path) + len(self.quots) +
                           len(self.sqrts) + len(self.tokens))
        i = 0
        while "{}_{}".format(n, i) in self.meta.setdefault("fresh", set()):
            i += 1
        nm = "{}_{}".format(n, i)
        self.meta["fresh"].add(nm)
        return z3.Real(nm) if kind == "r" else (
            z3.Int(nm) if kind == "i" else z3.Bool(nm))

    # ------------------------------------------------------------------
    # path handling
    # ------------------------------------------------------------------
    def _add(self, c):
        self.path.append(c)
        self.solver.add(c)

    def assume(self, cond):
        if isinstance(cond, Sym):
            self._add(zb(cond))
            self.learn(z3.simplify(zb(cond)))
            # infeasible assumption: cut the path as early as possible
            if self.depth >= len(self.prefix):
                if self._check() == z3.unsat:
                    raise PathAbort
        elif not cond:
            raise PathAbort

    def assume_light(self, cond):
        """assume without feasibility check (caller knows it is cheap)."""
        if isinstance(cond, Sym):
            self._add(zb(cond))
        elif not cond:
            raise PathAbort

    _SGN = {"<=": {-1, 0}, "<": {-1}, ">=": {0, 1}, ">": {1}, "==": {0},
            "!=": {-1, 1}}

    def _fact(self, a, b):
        """a - b with denominators cleared: (key, polarity) or None"""
        if self._plain(a) and self._plain(b):
            return None
        try:
            P, Q = self.ratform(_toreal(a) - _toreal(b))
            if self.sign(Q) != 2:
                return None
            d, atoms = _poly(P, {}, {}, 60)
        except OverflowError:
            return None
        if not d or len(d) > 60:
            return None
        # positive common factors
        ms = list(d)
        for i in set(ms[0]):
            x = atoms[i]
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                x = x.arg(0)
            lo = self.low.get(x.get_id())
            if lo is None or not (lo[0] > 0 or (lo[0] == 0 and lo[1])):
                continue
            k = min(m.count(i) for m in ms)
            if k:
                n = {}
                for m, v in d.items():
                    m = list(m)
                    for _ in range(k):
                        m.remove(i)
                    n[tuple(m)] = v
                d = n
                ms = list(d)
        top = max(d)
        lead = d[top]
        self._fkeep.append(atoms)
        return (tuple(sorted((m, v / lead) for m, v in d.items())),
                1 if lead > 0 else -1)

    def _plain(self, e):
        """linear without quotients: nothing to normalise"""
        k = e.get_id()
        r = self._plains.get(k)
        if r is None:
            r = True
            if z3.is_const(e):
                r = e.decl().name() not in self.qdefs
            elif z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_MUL and sum(
                        1 for c in e.children() if not _is_val(c)) > 1:
                    r = False
                else:
                    r = all(self._plain(c) for c in e.children())
            self._plains[k] = r
            self._fkeep.append(e)
        return r

    def learn(self, c):
        """lower bounds implied by a literal over one constant"""
        neg = False
        while z3.is_not(c):
            neg = not neg
            c = c.arg(0)
        if z3.is_and(c) and not neg:
            for d in c.children():
                self.learn(d)
            return
        k = c.decl().kind()
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=",
               z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
        if k not in ops:
            return
        o = ops[k]
        if neg:
            o = {"<=": ">", "<": ">=", ">=": "<", ">": "<=",
                 "==": "!="}[o]
        a, b = c.children()
        if not z3.is_arith(a):
            return
        f = self._fact(a, b)
        if f is not None:
            sg = {x * f[1] for x in self._SGN[o]}
            self.facts[f[0]] = self.facts.get(f[0], {-1, 0, 1}) & sg
        if _is_val(a):
            a, b = b, a
            o = {"<=": ">=", "<": ">", ">=": "<=", ">": "<", "==": "==",
                 "!=": "!="}[o]
        if not _is_val(b):
            return
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
            a = a.arg(0)
        if not z3.is_const(a):
            return
        v = _val(b)
        old = self.low.get(a.get_id())
        if o == "!=":
            if old is not None and old == (v, False):
                new = (v + 1, False) if a.is_int() else (v, True)
            else:
                return
        elif o in (">=", "==", ">"):
            new = (v, o == ">")
            if a.is_int() and o == ">":
                new = (math.floor(v) + 1, False)
        else:
            return
        if old is None or new[0] > old[0] or (new[0] == old[0] and new[1]):
            self.low[a.get_id()] = new
            self.meta.setdefault("lowkeep", []).append(a)

    def sign(self, e):
        """2: known > 0, 1: known >= 0, 0: unknown (syntactic, sound)"""
        try:
            d, atoms = _poly(e, {}, {})
        except OverflowError:
            return 0
        if not d:
            return 1
        best = 1
        if any(v < 0 for v in d.values()):
            return self._interval(d, atoms)
        for m, v in d.items():
            pos = True
            for i in m:
                x = atoms[i]
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    x = x.arg(0)
                lo = self.low.get(x.get_id())
                if lo is None or lo[0] < 0:
                    if m.count(i) % 2 == 0:
                        pos = False
                        continue
                    return 0
                if not (lo[0] > 0 or (lo[0] == 0 and lo[1])):
                    pos = False
            if pos:
                best = 2
        return best

    def _interval(self, d, atoms):
        """sign of a polynomial whose atoms are bounded and nonnegative"""
        total = Fraction(0)
        for m, v in d.items():
            t = Fraction(v)
            for i in m:
                x = atoms[i]
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    x = x.arg(0)
                lo = self.low.get(x.get_id())
                if lo is None or lo[0] < 0:
                    return 0
                if v > 0:
                    t *= Fraction(lo[0])
                else:
                    hi = self.high.get(x.get_id())
                    if hi is None:
                        return 0
                    t *= hi
            total += t
        return 2 if total > 0 else 1 if total == 0 else 0

    def quick(self, e):
        """decide a literal syntactically: True, False or None"""
        neg = False
        while z3.is_not(e):
            neg = not neg
            e = e.arg(0)
        k = e.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                     z3.Z3_OP_EQ):
            return None
        a, b = e.children()
        if not z3.is_arith(a):
            return None
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
            k = z3.Z3_OP_GE if k == z3.Z3_OP_LE else z3.Z3_OP_GT
        # a - b  >= / > / == 0
        d = _toreal(a) - _toreal(b)
        s = self.sign(d)
        r = None
        if k == z3.Z3_OP_GT:
            if s == 2:
                r = True
            elif s == 0 and self.sign(-d) >= 1:
                r = False
        elif k == z3.Z3_OP_GE:
            if s >= 1:
                r = True
            elif self.sign(-d) == 2:
                r = False
        elif s == 2 or self.sign(-d) == 2:
            r = False
        if r is None and self.facts:
            f = self._fact(a, b)
            kn = self.facts.get(f[0]) if f is not None else None
            if kn:
                sg = self._SGN[">" if k == z3.Z3_OP_GT else ">="
                               if k == z3.Z3_OP_GE else "=="]
                sg = {x * f[1] for x in sg}
                if kn <= sg:
                    r = True
                elif not (kn & sg):
                    r = False
        if r is None:
            return None
        return (not r) if neg else r

    def _check(self, *extra):
        t = time.perf_counter()
        st = self.ex.stats
        st.feas_queries += 1
        if time.time() > self.ex.deadline:
            raise Inconclusive("time budget of the exploration exhausted")
        r = self.solver.check(*extra)
        st.solver_s += time.perf_counter() - t
        return r

    def _decide(self, n):
        if self.depth < len(self.prefix):
            k = self.prefix[self.depth]
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.ex.push(self.trace + [j])
        self.trace.append(k)
        self.depth += 1
        self.ex.stats.decisions += 1
        return k

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self._know:
            return self._know[key][0]
        qk = self.quick(cond)
        if qk is not None:
            self._know[key] = (qk, cond)
            return qk
        if self.depth < len(self.prefix):
            k = self.prefix[self.depth]
        else:
            rt = self._check(cond)
            if rt == z3.unsat:
                k = 0
            else:
                rf = self._check(z3.Not(cond))
                if rf == z3.unsat:
                    k = 1
                else:
                    k = 1
                    self.ex.push(self.trace + [0])
        self.trace.append(k)
        self.depth += 1
        self.ex.stats.decisions += 1
        if self.depth > self.ex.max_depth:
            raise Inconclusive("more than {} decisions on one path".format(
                self.ex.max_depth))
        if _FORKS is not None:
            st = [f for f in traceback.extract_stack()
                  if "optbinning/" in f.filename or "/checks/" in f.filename]
            kk = "%s:%d" % (st[-1].filename[-40:], st[-1].lineno)
            _FORKS[kk] = _FORKS.get(kk, 0) + 1
        self._add(cond if k else z3.Not(cond))
        self.learn(cond if k else z3.Not(cond))
        # keep the ast alive so that its id is not reused
        self._know[key] = (bool(k), cond)
        nc = z3.simplify(z3.Not(cond))
        self._know[nc.get_id()] = (not k, nc)
        return bool(k)

    def known(self, cond):
        """value of a condition already decided on this path, or None"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self._know.get(cond.get_id())
        return k[0] if k is not None else self.quick(cond)

    def feasible(self, cond):
        if not isinstance(cond, Sym):
            return bool(cond)
        return self._check(zb(cond)) != z3.unsat

    def entailed(self, cond):
        """True if the path condition entails cond (no fork)."""
        e = z3.simplify(cond)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        qk = self.quick(e)
        if qk is not None:
            return qk
        return self._check(z3.Not(e)) == z3.unsat

    def concretize_int(self, s):
        if not isinstance(s, Sym):
            return int(s)
        if s.kind == "b":
            return int(self.branch(s.e))
        e = zr(s)
        if not e.is_int():
            raise Unsupported("index from a real")
        for _ in range(self.ex.max_enum):
            if self.depth < len(self.prefix):
                # value is encoded in the recorded decision
                v = self.prefix[self.depth]
                if isinstance(v, tuple):
                    tag, val = v
                    self.trace.append(v)
                    self.depth += 1
                    if tag == "=":
                        self._add(e == val)
                        return val
                    self._add(e != val)
                    continue
                raise Inconclusive("non deterministic re-execution")
            if self._check() != z3.sat:
                raise PathAbort
            val = self.solver.model().eval(e, model_completion=True)
            val = val.as_long()
            self.solver.push()
            self.solver.add(e != val)
            more = self._check() != z3.unsat
            self.solver.pop()
            if more:
                self.ex.push(self.trace + [("!", val)])
            self.trace.append(("=", val))
            self.depth += 1
            self.ex.stats.decisions += 1
            self._add(e == val)
            return val
        raise Inconclusive("unbounded concretisation of an index")

    # ------------------------------------------------------------------
    # nonlinear abstractions
    # ------------------------------------------------------------------
    def quotient(self, num, den):
        num, den = canon(num), canon(den)
        if num.eq(den):
            return 1.0
        if z3.is_rational_value(den) and not den.eq(z3.RealVal(0)):
            # the symbolic parts of the denominator cancel out
            fr = 1 / den.as_fraction()
            return core.lift(z3.simplify(num * z3.RealVal(
                "{}/{}".format(fr.numerator, fr.denominator))))
        key = (num.get_id(), den.get_id())
        if key in self.quots:
            s = self.quots[key]
            r = Sym(s.e, "r")
            r.q = s.q
            return r
        q = z3.Real("q!{}".format(len(self.quots)))
        s = Sym(q, "r")
        s.q = (num, den)
        self.quots[key] = s
        self.qdefs[q.decl().name()] = (num, den)
        # linear consequences of q * den == num
        sd, sn = self.sign(den), self.sign(num)
        if sd == 2:
            if sn == 2:
                lem = [q > 0]
                self.low[q.get_id()] = (0, True)
            elif sn == 1:
                lem = [q >= 0, (num == 0) == (q == 0)]
                self.low[q.get_id()] = (0, False)
            else:
                lem = [(num > 0) == (q > 0), (num == 0) == (q == 0)]
            df = self.sign(den - num)
            if df == 2:
                lem.append(q < 1)
            elif df == 1:
                lem += [q <= 1, (num == den) == (q == 1)]
            else:
                lem += [(num < den) == (q < 1), (num == den) == (q == 1)]
        else:
            lem = [z3.Implies(num == 0, q == 0),
                   z3.Implies(z3.And(den > 0, num > 0), q > 0),
                   z3.Implies(z3.And(den > 0, num < 0), q < 0),
                   z3.Implies(z3.And(den < 0, num > 0), q < 0),
                   z3.Implies(z3.And(den < 0, num < 0), q > 0),
                   z3.Implies(z3.And(den > 0, num < den), q < 1),
                   z3.Implies(z3.And(den > 0, num > den), q > 1),
                   z3.Implies(num == den, q == 1)]
        for c in lem:
            self._add(c)
        # cross comparison with quotients sharing num or den
        for k, o in list(self.quots.items()):
            if o is s:
                continue
            n2, d2 = o.q
            if d2.eq(den):
                df = self.sign(n2 - num) if sd == 2 else 0
                if df == 2:
                    self._add(q < o.e)
                elif df == 1:
                    self._add(q <= o.e)
                    self._add((num == n2) == (q == o.e))
                elif sd == 2 and self.sign(num - n2) == 2:
                    self._add(q > o.e)
                else:
                    f = z3.And((num < n2) == (q < o.e),
                               (num == n2) == (q == o.e))
                    self._add(f if sd == 2 else z3.Implies(den > 0, f))
            elif n2.eq(num):
                self._add(z3.Implies(
                    z3.And(den > 0, d2 > 0, num > 0),
                    z3.And((den > d2) == (q < o.e),
                           (den == d2) == (q == o.e))))
        r = Sym(q, "r")
        r.q = s.q
        return r

    def ratform(self, e, memo=None):
        """z3 real expr -> (P, Q) polynomials over atoms, quotients expanded"""
        memo = {} if memo is None else memo
        k = e.get_id()
        if k in memo:
            return memo[k][:2]
        one = z3.RealVal(1)
        r = None
        if z3.is_rational_value(e) or z3.is_int_value(e):
            r = (zreal(lift(e)) if not z3.is_rational_value(e) or
                 e.is_int() else e, one)
            if z3.is_int_value(e):
                r = (z3.RealVal(e.as_long()), one)
            else:
                r = (e, one)
        elif z3.is_const(e):
            nm = e.decl().name()
            if nm in self.qdefs:
                n, d = self.qdefs[nm]
                pn, qn = self.ratform(n, memo)
                pd, qd = self.ratform(d, memo)
                r = (_m(pn, qd), _m(qn, pd))
            elif e.is_int():
                r = (z3.ToReal(e), one)
        else:
            dk = e.decl().kind()
            ch = e.children()
            if dk == z3.Z3_OP_TO_REAL:
                r = self.ratform(ch[0], memo)
            elif dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                P, Q = self.ratform(ch[0], memo)
                for c in ch[1:]:
                    p, q = self.ratform(c, memo)
                    if dk == z3.Z3_OP_SUB:
                        p = -p
                    if q.eq(Q):
                        P = P + p
                    else:
                        P, Q = _m(P, q) + _m(p, Q), _m(Q, q)
                r = (P, Q)
            elif dk == z3.Z3_OP_UMINUS:
                p, q = self.ratform(ch[0], memo)
                r = (-p, q)
            elif dk == z3.Z3_OP_MUL:
                P, Q = one, one
                for c in ch:
                    p, q = self.ratform(c, memo)
                    P, Q = _m(P, p), _m(Q, q)
                r = (P, Q)
            elif dk == z3.Z3_OP_DIV:
                p, q = self.ratform(ch[0], memo)
                p2, q2 = self.ratform(ch[1], memo)
                r = (_m(p, q2), _m(q, p2))
            elif dk == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
                n = ch[1].numerator_as_long()
                p, q = self.ratform(ch[0], memo)
                P, Q = one, one
                for _ in range(n):
                    P, Q = _m(P, p), _m(Q, q)
                r = (P, Q)
        if r is None:
            r = (e if not e.is_int() else z3.ToReal(e), one)
        memo[k] = r + (e,)
        return r

    @staticmethod
    def _size(e):
        """tree size, counted up to a few thousand nodes"""
        n, todo = 0, [e]
        while todo and n < 5000:
            n += 1
            todo.extend(todo.pop().children())
        return n

    def at_bound(self, f):
        """(x, v) when the literal x <= v meets the lower bound v of x"""
        neg = False
        while z3.is_not(f):
            neg = not neg
            f = f.arg(0)
        k = f.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        a, b = f.children()
        o = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=",
             z3.Z3_OP_GT: ">"}[k]
        if neg:
            o = {"<=": ">", "<": ">=", ">=": "<", ">": "<="}[o]
        if _is_val(a):
            a, b = b, a
            o = {"<=": ">=", "<": ">", ">=": "<=", ">": "<"}[o]
        if not _is_val(b):
            return None
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL:
            a = a.arg(0)
        if not z3.is_const(a) or _is_val(a):
            return None
        lo = self.low.get(a.get_id())
        v = _val(b)
        if o == "<" and a.is_int():
            v = math.ceil(v) - 1
            o = "<="
        if o != "<=" or lo is None or lo[1] or lo[0] != v:
            return None
        v = Fraction(v)
        return (a, z3.IntVal(int(v)) if a.is_int() else z3.RealVal(
            "{}/{}".format(v.numerator, v.denominator)))

    def reduce_sqrt(self, P):
        """polynomial of P with squares of square roots replaced"""
        for s, e in list(self.sqrts.values()):
            pe, qe = self.ratform(e)
            d, atoms = _poly(P, {}, {}, 4000)
            i = s.get_id()
            K = max([m.count(i) for m in d] or [0]) // 2
            if not K:
                continue
            t = []
            for m, v in d.items():
                k = m.count(i) // 2
                r = list(m)
                for _ in range(2 * k):
                    r.remove(i)
                x = _unpoly({tuple(r): v}, atoms)
                for _ in range(k):
                    x = x * pe
                for _ in range(K - k):
                    x = x * qe
                t.append(x)
            P, _ = self.ratform(z3.Sum(t))
        return _poly(P, {}, {}, 4000)[0]

    # log of a rational expression: sum of logs of its positive factors
    def log(self, a):
        if not isinstance(a, Sym):
            if isinstance(a, (float, np.floating)) and not math.isfinite(a):
                return core.s_log(a)
            if a <= 0:
                return core.s_log(a)
            e = zreal(core.z3num(a)) if False else core.z3num(float(a))
        else:
            e = zreal(a)
        e = z3.simplify(e)
        k = e.get_id()
        if k in self.logs:
            return self.logs[k][0]
        # log(exp(t)) = t
        if z3.is_app(e) and e.decl().eq(EXP):
            r = lift(e.arg(0))
        else:
            r = self._log_factored(e)
        self.logs[k] = (r, e)
        return r

    def _log_atom(self, e):
        e = z3.simplify(e)
        t = LOG(e)
        self.meta.setdefault("logatoms", {})[e.get_id()] = e
        return t

    def _log_factored(self, e):
        P, Q = self.ratform(e)
        try:
            fn = self._factors(P)
            fd = self._factors(Q)
        except Unsupported:
            return lift(self._log_atom(e))
        coef = {}
        exprs = {}
        for sgn, fs in ((1, fn), (-1, fd)):
            for f, m in fs:
                f = z3.simplify(f)
                coef[f.get_id()] = coef.get(f.get_id(), 0) + sgn * m
                exprs[f.get_id()] = f
        total = None
        neg = 0
        for k, m in coef.items():
            if m == 0:
                continue
            f = exprs[k]
            if z3.is_rational_value(f):
                fr = Fraction(f.numerator_as_long(), f.denominator_as_long())
                if fr < 0:
                    neg += m
                    fr = -fr
                if fr == 1:
                    continue
                terms = []
                for s2, n in ((1, fr.numerator), (-1, fr.denominator)):
                    for p, mm in _factorint(n).items():
                        terms.append(s2 * mm * self._log_atom(
                            z3.RealVal(p)))
                t = sum(terms) * m if terms else None
                if t is None:
                    continue
            else:
                if self.entailed(f > 0):
                    pass
                elif self.entailed(f < 0):
                    f = z3.simplify(-f)
                    neg += m
                elif m % 2 == 0 and self.entailed(f != 0):
                    return lift(self._log_atom(e))
                else:
                    return lift(self._log_atom(e))
                t = m * self._log_atom(f)
            total = t if total is None else total + t
        if neg % 2:
            return lift(self._log_atom(e))
        if total is None:
            return 0.0
        return lift(z3.simplify(total))

    def _factors(self, P):
        """factor polynomial P -> list of (z3 factor, multiplicity)"""
        if sympy is None:
            raise Unsupported("no sympy")
        hit = _FACT.get(P.get_id())
        if hit is not None:
            return hit[1]
        atoms = {}
        sp = _to_sympy(P, atoms)
        if sp == 0:
            raise Unsupported("zero")
        c, fl = sympy.factor_list(sympy.expand(sp))
        out = []
        c = sympy.Rational(c)
        if c != 1:
            out.append((z3.RealVal("{}/{}".format(c.p, c.q)), 1))
        inv = {s: z for s, z in atoms.values()}
        for f, m in fl:
            out.append((_from_sympy(f, inv), int(m)))
        _FACT[P.get_id()] = (P, out)
        return out

    def exp(self, a):
        e = z3.simplify(zreal(a))
        k = e.get_id()
        if k not in self.exps:
            t = EXP(e)
            self.exps[k] = (t, e)
            self._add(t > 0)
            for k2, (t2, e2) in list(self.exps.items()):
                if k2 != k:
                    self._add((e < e2) == (t < t2))
                    self._add((e == e2) == (t == t2))
            self._add((e < 0) == (t < 1))
            self._add((e == 0) == (t == 1))
            self._add(t >= e + 1)
        return lift(self.exps[k][0])

    def sqrt(self, a):
        if not isinstance(a, Sym):
            return core.s_sqrt(a)
        e = canon(zreal(a))
        k = e.get_id()
        if k not in self.sqrts:
            s = z3.Real("sqrt!{}".format(len(self.sqrts)))
            self._add(s >= 0)
            self._add((e == 0) == (s == 0))
            self._add((e < 1) == (s < 1))
            self._add((e == 1) == (s == 1))
            for k2, (s2, e2) in list(self.sqrts.items()):
                self._add((e < e2) == (s < s2))
            self.sqrts[k] = (s, e)
        return lift(self.sqrts[k][0])

    def uf(self, name, *args):
        """uninterpreted environment function (e.g. a CDF)."""
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return lift(f(*[z3.simplify(zreal(a)) for a in args]))

    # ------------------------------------------------------------------
    # strings
    # ------------------------------------------------------------------
    def token(self, s, spec):
        e = z3.simplify(zr(s) if s.kind != "b" else s.e)
        key = (e.get_id(), spec)
        if key not in self.tokens:
            self.tokens[key] = ("\u27e6{}:{}\u27e7".format(
                len(self.tokens), spec), e)
        return self.tokens[key][0]

    def untoken(self, text):
        """value behind a formatted number"""
        for t, e in self.tokens.values():
            if t == text:
                return core.lift(e)
        return float(text)

    # ------------------------------------------------------------------
    # assertions
    # ------------------------------------------------------------------
    def eq(self, a, b):
        if core.is_nonfinite(a) or core.is_nonfinite(b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return False
            a, b = float(a), float(b)
            return a == b or (math.isnan(a) and math.isnan(b))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if not core.is_num(a) or not core.is_num(b):
                return a == b
            return abs(float(a) - float(b)) <= 1e-9 * max(
                1.0, abs(float(a)), abs(float(b)))
        return core.s_eq(a, b)

    def near(self, a, b, tol=1e-9):
        """equal up to tol (concrete logarithms are decimal numbers)"""
        if core.is_nonfinite(a) or core.is_nonfinite(b) or not (
                isinstance(a, Sym) or isinstance(b, Sym)):
            return self.eq(a, b)
        d = core.s_sub(a, b)
        return self.And(core.s_le(d, tol), core.s_le(-tol, d))

    def le(self, a, b):
        return core.s_le(a, b)

    def ge(self, a, b):
        return core.s_le(b, a)

    def lt(self, a, b):
        return core.s_lt(a, b)

    def same(self, a, b):
        return core.s_eq(a, b) if (isinstance(a, Sym) or isinstance(b, Sym)) \
            else bool(a == b)

    def cover(self, label):
        """record that this point is reachable (vacuity witness)."""
        st = self.ex.stats
        if st.covers.get(label, 0) == 0:
            if self._check() == z3.sat:
                st.covers[label] = 1
        else:
            st.covers[label] += 1

    def fail(self, label, info=None):
        self.prove(False, label, info=info)

    def prove(self, cond, label, info=None, timeout=None, approx=False):
        assert isinstance(label, str) and not isinstance(cond, str)
        st = self.ex.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        self.ex.last_label = label
        if not isinstance(cond, Sym) and not isinstance(cond, z3.BoolRef):
            if bool(cond):
                st.trivial += 1
                st.discharged += 1
                return True
            cond = False
        e = z3.simplify(zb(cond))
        if z3.is_true(e):
            st.trivial += 1
            st.discharged += 1
            return True
        neg = z3.simplify(z3.Not(e))
        self.ex.check_violation(self, neg, label, info, timeout)
        return True

    def lemmas(self, exprs):
        """defining constraints of abstractions reachable from exprs."""
        out = []
        seen = set()
        stack = list(exprs)
        sq = {s.decl().name(): (s, e) for s, e in self.sqrts.values()}
        logargs = {}
        done_q = set()
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                if nm in self.qdefs and nm not in done_q:
                    done_q.add(nm)
                    n, d = self.qdefs[nm]
                    out.append(e * d == n)
                    out.append(d != 0)
                    stack.extend([n, d])
                if nm in sq:
                    s, a = sq[nm]
                    out.append(s * s == a)
                    stack.append(a)
            elif z3.is_app(e):
                if e.decl().eq(LOG):
                    logargs[e.arg(0).get_id()] = e.arg(0)
                stack.extend(e.children())
        la = list(logargs.values())
        la.sort(key=lambda t: not z3.is_rational_value(t))
        for i, t in enumerate(la):
            L = LOG(t)
            if z3.is_rational_value(t):
                v = _declog(t.numerator_as_long(), t.denominator_as_long())
                out.append(L > z3.RealVal(str(v - _TINY)))
                out.append(L < z3.RealVal(str(v + _TINY)))
                continue
            out.append(z3.Implies(t > 0, z3.And((t < 1) == (L < 0),
                                                (t == 1) == (L == 0),
                                                L <= t - 1)))
            for u in la[i + 1:]:
                out.append(z3.Implies(z3.And(t > 0, u > 0), z3.And(
                    (t < u) == (L < LOG(u)), (t == u) == (L == LOG(u)))))
        return out

    # solver variable environment ---------------------------------------
    def new_solver_var(self, sym):
        self.svals.append(sym)

    def solution_value(self, s):
        for m in self.meta.get("models", []):
            m.read(s)
        return s

    def extract(self, model):
        vals = {}
        for n, v in self.inputs.items():
            vals[n] = _model_num(model.eval(v, model_completion=True))
        for n, k in self.choices.items():
            vals[n] = k
        force = self.meta.get("force", "all")
        if self.svals and force != "none":
            d = {}
            only = None
            if force == "decoded":
                only = {id(m.vars[i]) for m in self.meta.get("models", [])
                        for i in m.decoded}
            for i, s in enumerate(self.svals):
                if only is not None and id(s) not in only:
                    continue
                if isinstance(s, Sym):
                    d[i] = _model_num(model.eval(zr(s),
                                                 model_completion=True))
                else:
                    d[i] = s
            vals["__solver__"] = d
        return vals


_TINY = decimal.Decimal("1e-25")


def _declog(n, d):
    with decimal.localcontext() as c:
        c.prec = 40
        return (decimal.Decimal(n).ln() - decimal.Decimal(d).ln()).quantize(
            decimal.Decimal("1e-30"))


_CANON = {}     # expression -> canonical polynomial (asts kept alive)


def _is_val(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def _val(e):
    if z3.is_int_value(e):
        return e.as_long()
    return Fraction(e.numerator_as_long(), e.denominator_as_long())


def _toreal(e):
    return z3.ToReal(e) if e.is_int() else e


def canon(e):
    """canonical polynomial form (sum of sorted monomials over atoms)"""
    hit = _CANON.get(e.get_id())
    if hit is not None:
        return hit[1]
    try:
        d, atoms = _poly(e, {}, {})
        r = _unpoly(d, atoms)
    except OverflowError:
        r = z3.simplify(e)
    _CANON[e.get_id()] = (e, r)
    _CANON[r.get_id()] = (r, r)
    return r


_OPS = [10 ** 12]


def _poly(e, memo, atoms, cap=150):
    k = e.get_id()
    if k in memo:
        return memo[k], atoms
    r = None
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = {(): f} if f else {}
    elif z3.is_int_value(e):
        f = Fraction(e.as_long())
        r = {(): f} if f else {}
    elif z3.is_app(e) and not z3.is_const(e):
        dk = e.decl().kind()
        ch = e.children()
        if dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = {}
            for i, c in enumerate(ch):
                p, _ = _poly(c, memo, atoms, cap)
                sg = -1 if (dk == z3.Z3_OP_SUB and i) else 1
                for m, v in p.items():
                    w = r.get(m, 0) + sg * v
                    if w:
                        r[m] = w
                    else:
                        r.pop(m, None)
        elif dk == z3.Z3_OP_UMINUS:
            r = {m: -v for m, v in _poly(ch[0], memo, atoms, cap)[0].items()}
        elif dk == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                p, _ = _poly(c, memo, atoms, cap)
                if len(p) * len(r) > cap:
                    raise OverflowError
                _OPS[0] -= len(p) * len(r)
                if _OPS[0] < 0:
                    raise OverflowError
                n = {}
                for m, v in r.items():
                    for m2, v2 in p.items():
                        mm = tuple(sorted(m + m2))
                        w = n.get(mm, 0) + v * v2
                        if w:
                            n[mm] = w
                        else:
                            n.pop(mm, None)
                r = n
        elif dk == z3.Z3_OP_TO_REAL:
            r = _poly(ch[0], memo, atoms, cap)[0]
    if r is None:
        x = z3.ToReal(e) if e.is_int() else e
        if not z3.is_const(e):
            x = z3.simplify(x)
        i = x.get_id()
        atoms[i] = x
        r = {(i,): Fraction(1)}
    memo[k] = r
    return r, atoms


def _unpoly(d, atoms):
    if not d:
        return z3.RealVal(0)
    ts = []
    for m in sorted(d):
        c = d[m]
        fs = [atoms[i] for i in m]
        if c != 1 or not fs:
            fs = [z3.RealVal("{}/{}".format(c.numerator, c.denominator))] + fs
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    t = ts[0]
    for u in ts[1:]:
        t = t + u
    return t


_FACT = {}      # polynomials already factored (ast kept alive)


def _m(a, b):
    if z3.is_rational_value(a) and a.numerator_as_long() == 1 and \
            a.denominator_as_long() == 1:
        return b
    if z3.is_rational_value(b) and b.numerator_as_long() == 1 and \
            b.denominator_as_long() == 1:
        return a
    return a * b


def _factorint(n):
    return sympy.factorint(n) if n > 1 else {}


def _to_sympy(e, atoms):
    if z3.is_rational_value(e):
        return sympy.Rational(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return sympy.Integer(e.as_long())
    if z3.is_app(e) and not z3.is_const(e):
        dk = e.decl().kind()
        ch = e.children()
        if dk == z3.Z3_OP_ADD:
            return sympy.Add(*[_to_sympy(c, atoms) for c in ch])
        if dk == z3.Z3_OP_SUB:
            r = _to_sympy(ch[0], atoms)
            for c in ch[1:]:
                r = r - _to_sympy(c, atoms)
            return r
        if dk == z3.Z3_OP_UMINUS:
            return -_to_sympy(ch[0], atoms)
        if dk == z3.Z3_OP_MUL:
            return sympy.Mul(*[_to_sympy(c, atoms) for c in ch])
        if dk == z3.Z3_OP_TO_REAL and not z3.is_const(ch[0]):
            dk2 = ch[0].decl().kind()
            if dk2 in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL,
                       z3.Z3_OP_UMINUS):
                return _to_sympy(ch[0], atoms)
    if e.is_int():
        e = z3.ToReal(e)
    k = e.get_id()
    if k not in atoms:
        atoms[k] = (sympy.Symbol("a{:03d}_{}".format(
            len(atoms), abs(hash(e.sexpr())) % 997)), e)
    return atoms[k][0]


def _from_sympy(f, inv):
    p = sympy.Poly(f, *sorted(f.free_symbols, key=lambda s: s.name))
    tot = None
    gens = p.gens
    for mon, c in sorted(p.terms(), key=lambda t: t[0]):
        c = sympy.Rational(c)
        t = z3.RealVal("{}/{}".format(c.p, c.q))
        for g, k in zip(gens, mon):
            for _ in range(k):
                t = t * inv[g]
        tot = t if tot is None else tot + t
    return z3.simplify(tot, som=True)
