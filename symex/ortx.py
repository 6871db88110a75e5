"""Contract stubs for OR-Tools (CP-SAT and pywraplp).

The solver itself is the environment, not the code under test.  ``Solve`` is
replaced by its contract: the solver returns *some* assignment that satisfies
every constraint the code posted.  All such assignments are explored, because
the variables are symbolic and the posted constraints become path conditions.

During a replay the real OR-Tools solver is used, with the decision variables
forced to the values of the counterexample.
"""

import z3

from . import core, npx
from .core import Sym, Unsupported, PathAbort, zb, zr, lift, b01


class _Constraint:
    def __init__(self, model, e):
        self.model = model
        self.e = e
        self.enf = []

    def OnlyEnforceIf(self, *lits):
        if len(lits) == 1 and isinstance(lits[0], (list, tuple)):
            lits = lits[0]
        self.enf.extend(lits)
        return self

    only_enforce_if = OnlyEnforceIf

    def WithName(self, n):
        return self

    def formula(self):
        e = zb(self.e)
        if self.enf:
            e = z3.Implies(z3.And(*[zb(l) for l in self.enf]), e)
        return e


def _lit(v):
    return zb(v) if not isinstance(v, Sym) or v.b01 is None else v.b01


class Base:
    """state shared by the two stubs: variables, constraints, objective"""

    def _init(self):
        c = core.cur()
        if c is None:
            raise Unsupported("solver stub outside a symbolic context")
        self._ctx = c
        self.vars = []
        self.bounds = []
        self.cons = []
        self.obj = None
        self.sense = None
        self.decoded = []
        c.meta.setdefault("models", []).append(self)

    def _name(self, kind):
        c = self._ctx
        k = c.meta.get("nsv", 0)
        c.meta["nsv"] = k + 1
        return "sv!{}!{}".format(k, kind)

    def _bool(self):
        s = b01(z3.Bool(self._name("b")))
        self.vars.append(s)
        self._ctx.new_solver_var(s)
        return s

    def _int(self, lo, hi):
        s = Sym(z3.Int(self._name("i")), "i")
        self._rng(s, lo, hi)
        return s

    def _real(self, lo, hi):
        s = Sym(z3.Real(self._name("r")), "r")
        self._rng(s, lo, hi)
        return s

    def _rng(self, s, lo, hi):
        if not core.is_nonfinite(lo):
            self.bounds.append(zr(s) >= zr(lo))
        if not core.is_nonfinite(hi):
            self.bounds.append(zr(s) <= zr(hi))
        self.vars.append(s)
        self._ctx.new_solver_var(s)

    def _add(self, e):
        if isinstance(e, npx.SymArray) and e.size == 1:
            e = e.item()
        c = _Constraint(self, e)
        self.cons.append(c)
        return c

    def formulas(self):
        return self.bounds + [c.formula() for c in self.cons]

    def assume(self):
        for f in self.formulas():
            self._ctx._add(f)
        # feasibility is decided once, here
        if self._ctx.depth >= len(self._ctx.prefix):
            if self._ctx._check() == z3.unsat:
                raise PathAbort

    def free_consts(self):
        return [z3.simplify(v.b01) if v.b01 is not None else v.e
                for v in self.vars]

    def read(self, v):
        """the code reads the value of a decision variable"""
        for i, u in enumerate(self.vars):
            if u is v:
                if i not in self.decoded:
                    bits = self._ctx.meta.get("bits")
                    k = len(self.decoded)
                    self.decoded.append(i)
                    if bits and k < len(bits) and v.b01 is not None:
                        # completeness: one assignment at a time
                        self._ctx._add(v.b01 if bits[k] else z3.Not(v.b01))
                return

    def leaves(self, bits, cap=4096, aux=()):
        """all completions of the decoded booleans (set to ``bits``, in the
        order in which the code read them): list of (condition, objective).
        The remaining booleans are enumerated with pruning, the remaining
        integers eliminated (Fourier-Motzkin, unit coefficients)."""
        if len(bits) != len(self.decoded):
            raise Unsupported("decoded variables")
        sub = {}
        for i, b in zip(self.decoded, bits):
            v = self.vars[i]
            if v.b01 is None:
                raise Unsupported("decoded non boolean")
            sub[i] = bool(b)
        bools = [i for i, v in enumerate(self.vars) if v.b01 is not None]
        ints = [v.e for v in self.vars if v.b01 is None]
        fs = [z3.simplify(f) for f in self.formulas()]
        obj = None if self.obj is None else zr(self.obj)
        oi = [v for v in ints if obj is not None and _occurs(obj, v)]
        if oi:
            # candidate values of auxiliary integers of the objective
            import itertools
            res = []
            for vals in itertools.product(aux, repeat=len(oi)):
                m = [(v, zr(a) if zr(a).is_int() or not v.is_int()
                      else z3.ToInt(zr(a))) for v, a in zip(oi, vals)]
                res += self._leaves([z3.substitute(f, *m) for f in fs],
                                    z3.substitute(obj, *m), bools,
                                    [v for v in ints
                                     if not any(v.eq(u) for u in oi)],
                                    sub, cap)
            return res
        return self._leaves(fs, obj, bools, ints, sub, cap)

    def _leaves(self, fs, obj, bools, ints, sub, cap):
        out = []

        def rec(fs, sub, obj):
            if len(out) > cap:
                raise Unsupported("too many completions")
            free = [i for i in bools if i not in sub]
            if not free:
                cond = _eliminate(fs, ints)
                if not z3.is_false(cond):
                    out.append((cond, obj, dict(sub)))
                return
            # unit propagation through pruning: pick a variable
            i = free[0]
            for val in (True, False):
                m = [(self.vars[i].b01, z3.BoolVal(val))]
                nf, dead = [], False
                for f in fs:
                    g = z3.simplify(z3.substitute(f, *m))
                    if z3.is_false(g):
                        dead = True
                        break
                    if not z3.is_true(g):
                        nf.append(g)
                if dead:
                    continue
                s2 = dict(sub)
                s2[i] = val
                rec(nf, s2, None if obj is None else
                    z3.simplify(z3.substitute(obj, *m)))
        m0 = [(self.vars[i].b01, z3.BoolVal(b)) for i, b in sub.items()]
        nf = []
        for f in fs:
            g = z3.simplify(z3.substitute(f, *m0))
            if z3.is_false(g):
                return []
            if not z3.is_true(g):
                nf.append(g)
        rec(nf, sub, None if obj is None else
            z3.simplify(z3.substitute(obj, *m0)))
        return out

    def _pin(self):
        """one solution is enough for the harness"""
        s = z3.Solver()
        s.set("timeout", 5000)
        s.set("random_seed", 0)
        s.add(*self._ctx.path)
        if s.check() != z3.sat:
            raise Unsupported("no solution of a pinned model")
        m = s.model()
        for v in self.vars:
            a = z3.simplify(v.b01) if v.b01 is not None else v.e
            self._ctx._add(a == m.eval(a, model_completion=True))

    def _canonical(self):
        """the model with its variables numbered in order of creation"""
        m = []
        for i, v in enumerate(self.vars):
            a = z3.simplify(v.b01) if v.b01 is not None else v.e
            m.append((a, z3.Const("cv!%d" % i, a.sort())))
        fs = [z3.simplify(z3.substitute(f, *m)) for f in self.formulas()]
        o = None if self.obj is None else \
            z3.simplify(z3.substitute(zr(self.obj), *m))
        return fs, o, self.sense

    def _twin(self):
        """an earlier model that is the same: the (deterministic) solver
        returns the same solution"""
        self.canon = a = self._canonical()
        for m in self._ctx.meta["models"]:
            b = getattr(m, "canon", None)
            if m is self or b is None or type(m) is not type(self):
                continue
            if len(self.vars) == len(m.vars) and a[2] == b[2] and \
                    len(a[0]) == len(b[0]) and \
                    all(x.eq(y) for x, y in zip(a[0], b[0])) and \
                    ((a[1] is None and b[1] is None) or
                     (a[1] is not None and b[1] is not None and
                      a[1].eq(b[1]))):
                return m
        return None

    # infeasibility is explored only on request of the harness
    def solve(self):
        mode = self._ctx.meta.get("solve_mode", "feasible")
        if self._ctx.meta.get("same_solution"):
            twin = self._twin()
            if twin is not None:
                for u, v in zip(self.vars, twin.vars):
                    self._ctx._add(_lit(u) == _lit(v)
                                   if u.b01 is not None else u.e == v.e)
                return True
        if mode in ("feasible", "pin"):
            self.assume()
            if mode == "pin":
                self._pin()
            return True
        if mode == "collect":
            return True
        return False


class CpModel(Base):
    def __init__(self):
        self._init()

    def NewBoolVar(self, name=""):
        return self._bool()

    def NewIntVar(self, lo, hi, name=""):
        for b in (lo, hi):
            if not isinstance(b, Sym) and not isinstance(
                    core.py(b), int):
                raise TypeError("NewIntVar bounds must be integers, got "
                                "{!r}".format(b))
            if isinstance(b, Sym) and not zr(b).is_int():
                raise TypeError("NewIntVar bounds must be integers")
        return self._int(lo, hi)

    def NewConstant(self, v):
        return v

    def Add(self, e):
        return self._add(e)

    def AddImplication(self, a, b):
        return self._add(lift(z3.Implies(_lit(a), _lit(b))))

    def AddBoolOr(self, *l):
        l = l[0] if len(l) == 1 and isinstance(l[0], (list, tuple)) else l
        return self._add(lift(z3.Or(*[_lit(x) for x in l])))

    def AddBoolAnd(self, *l):
        l = l[0] if len(l) == 1 and isinstance(l[0], (list, tuple)) else l
        return self._add(lift(z3.And(*[_lit(x) for x in l])))

    def AddExactlyOne(self, *l):
        l = l[0] if len(l) == 1 and isinstance(l[0], (list, tuple)) else l
        return self._add(lift(z3.PbEq([(_lit(x), 1) for x in l], 1)))

    def AddAtMostOne(self, *l):
        l = l[0] if len(l) == 1 and isinstance(l[0], (list, tuple)) else l
        return self._add(lift(z3.PbLe([(_lit(x), 1) for x in l], 1)))

    def AddAbsEquality(self, t, e):
        return self._add(core.s_eq(t, core.s_abs(e)))

    def AddMaxEquality(self, t, es):
        r = None
        for e in es:
            r = e if r is None else core.s_max(r, e)
        return self._add(core.s_eq(t, r))

    def AddMinEquality(self, t, es):
        r = None
        for e in es:
            r = e if r is None else core.s_min(r, e)
        return self._add(core.s_eq(t, r))

    def AddHint(self, *a):
        return None

    def Maximize(self, e):
        self.obj, self.sense = e, "max"

    def Minimize(self, e):
        self.obj, self.sense = e, "min"

    new_bool_var = NewBoolVar
    new_int_var = NewIntVar
    add = Add
    add_implication = AddImplication
    maximize = Maximize
    minimize = Minimize


class _Params:
    pass


class CpSolver:
    def __init__(self):
        self.parameters = _Params()

    def Solve(self, model, *a):
        self._model = model
        return 4 if model.solve() else 3

    def StatusName(self, s):
        return {4: "OPTIMAL", 2: "FEASIBLE", 3: "INFEASIBLE",
                0: "UNKNOWN", 1: "MODEL_INVALID"}[s]

    def BooleanValue(self, v):
        self._model.read(v)
        return lift(_lit(v)) if isinstance(v, Sym) else bool(v)

    def Value(self, v):
        self._model.read(v)
        return v

    def ObjectiveValue(self):
        return self._model.obj

    BestObjectiveBound = ObjectiveValue

    def NumBooleans(self):
        return 0

    NumBranches = NumConflicts = WallTime = UserTime = NumBooleans

    def __getattr__(self, n):
        raise Unsupported("CpSolver." + n)

    solve = Solve
    status_name = StatusName
    boolean_value = BooleanValue
    value = Value


class FakeCpModule:
    OPTIMAL = 4
    FEASIBLE = 2
    INFEASIBLE = 3
    UNKNOWN = 0
    MODEL_INVALID = 1
    CpModel = CpModel
    CpSolver = CpSolver


class LpSolver(Base):
    CBC_MIXED_INTEGER_PROGRAMMING = 5
    BOP_INTEGER_PROGRAMMING = 12
    SCIP_MIXED_INTEGER_PROGRAMMING = 3
    SAT_INTEGER_PROGRAMMING = 14
    OPTIMAL = 0
    FEASIBLE = 1
    INFEASIBLE = 2
    UNBOUNDED = 3
    ABNORMAL = 4
    NOT_SOLVED = 6

    def __init__(self, name="", kind=None):
        self._init()

    @staticmethod
    def CreateSolver(*a):
        return LpSolver()

    @staticmethod
    def infinity():
        return float("inf")

    Infinity = infinity

    def BoolVar(self, name=""):
        return self._bool()

    def IntVar(self, lo, hi, name=""):
        return self._int(lo, hi)

    def NumVar(self, lo, hi, name=""):
        return self._real(lo, hi)

    def Var(self, lo, hi, integer, name=""):
        return self._int(lo, hi) if integer else self._real(lo, hi)

    def Sum(self, es):
        r = 0
        for e in es:
            r = core.s_add(r, e)
        return r

    def Add(self, e, name=""):
        return self._add(e)

    def Maximize(self, e):
        self.obj, self.sense = e, "max"

    def Minimize(self, e):
        self.obj, self.sense = e, "min"

    def SetTimeLimit(self, t):
        pass

    def SetNumThreads(self, t):
        pass

    def EnableOutput(self):
        pass

    def Solve(self, *a):
        return self.OPTIMAL if self.solve() else self.INFEASIBLE

    def Objective(self):
        s = self

        class _O:
            def Value(self):
                return s.obj

            def BestBound(self):
                return s.obj
        return _O()

    def NumVariables(self):
        return len(self.vars)

    def NumConstraints(self):
        return len(self.cons)

    def iterations(self):
        return 0

    def nodes(self):
        return 0

    def wall_time(self):
        return 0

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("pywraplp.Solver." + n)


def _push(e):
    """conversions to real moved to the leaves of integer sums"""
    if not z3.is_app(e) or z3.is_const(e):
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        a = e.arg(0)
        if z3.is_app(a) and a.decl().kind() in (
                z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            ch = [_push(z3.ToReal(x)) for x in a.children()]
            return _rebuild(a.decl().kind(), ch)
        if z3.is_int_value(a):
            return z3.RealVal(a.as_long())
        return e
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return _rebuild(k, [_push(x) for x in e.children()])
    return e


def _rebuild(k, ch):
    r = ch[0]
    if k == z3.Z3_OP_UMINUS:
        return -r
    for x in ch[1:]:
        r = r + x if k == z3.Z3_OP_ADD else (
            r - x if k == z3.Z3_OP_SUB else r * x)
    return r


def _linear(e, v):
    """e as (coefficient of v, rest); e is an arithmetic expression"""
    from .ctx import _poly, _unpoly
    d, atoms = _poly(_push(e), {}, {})
    x = z3.ToReal(v) if v.is_int() else v
    k = x.get_id()
    co, rest = 0, {}
    for m, c in d.items():
        if k in m:
            if m != (k,):
                raise Unsupported("nonlinear in an auxiliary variable")
            co = c
        else:
            rest[m] = c
    for i, a in atoms.items():
        if i != k and _occurs(a, v) and any(i in m for m in rest):
            raise Unsupported("auxiliary variable inside an atom " +
                              str(a)[:300])
    return co, _unpoly(rest, atoms)


def _occurs(e, v):
    seen, st = set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def _floor(e):
    """floor of a real expression, integer terms kept outside"""
    from .ctx import _poly, _unpoly
    d, atoms = _poly(_push(e), {}, {})
    ip, rest = {}, {}
    for m, c in d.items():
        a = [atoms[k] for k in m]
        if c.denominator == 1 and all(
                x.decl().kind() == z3.Z3_OP_TO_REAL for x in a):
            ip[m] = c
        else:
            rest[m] = c
    out = z3.IntVal(0)
    for m, co in ip.items():
        t = z3.IntVal(co.numerator)
        for k in m:
            t = t * atoms[k].arg(0)
        out = out + t
    if rest:
        out = out + z3.ToInt(_unpoly(rest, atoms))
    return out


def _substitute(fs, v):
    """a real variable defined by an equality is replaced by its value"""
    flat, todo = [], list(reversed(fs))
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo.extend(reversed(f.children()))
        else:
            flat.append(f)
    for i, f in enumerate(flat):
        if z3.is_eq(f) and f.arg(0).is_real() and _occurs(f, v):
            co, r = _linear(f.arg(0) - f.arg(1), v)
            if co == 0:
                continue
            e = z3.simplify(-r / zr(co))
            rest = flat[:i] + flat[i + 1:]
            return [z3.simplify(z3.substitute(g, (v, e))) if _occurs(g, v)
                    else g for g in rest], True
    return flat, False


def _eliminate(fs, vs):
    """exists vs. And(fs), for integer or real vs occurring with unit coefficients in
    (in)equalities whose remaining terms are integers"""
    fs = list(fs)
    for v in vs:
        if not v.is_int():
            fs, done = _substitute(fs, v)
            if done:
                continue
        use = [f for f in fs if _occurs(f, v)]
        rest = [f for f in fs if not _occurs(f, v)]
        lo, hi = [], []        # (bound, strict)
        todo = list(use)
        while todo:
            f = todo.pop()
            neg = False
            if z3.is_and(f):
                todo.extend(f.children())
                continue
            if not _occurs(f, v):
                rest.append(f)
                continue
            while z3.is_not(f):
                neg = not neg
                f = f.arg(0)
            k = f.decl().kind()
            if k == z3.Z3_OP_EQ and not neg:
                ops = ["le", "ge"]
            elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                o = {z3.Z3_OP_LE: "le", z3.Z3_OP_GE: "ge",
                     z3.Z3_OP_LT: "lt", z3.Z3_OP_GT: "gt"}[k]
                if neg:
                    o = {"le": "gt", "ge": "lt", "lt": "ge", "gt": "le"}[o]
                ops = [o]
            else:
                raise Unsupported("auxiliary integer in " + str(f)[:200])
            a, b = f.children()
            d = (z3.ToReal(a) if a.is_int() else a) - \
                (z3.ToReal(b) if b.is_int() else b)
            co, r = _linear(d, v)
            if co == 0:
                rest.append(f)
                continue
            if co not in (1, -1):
                if v.is_int():
                    raise Unsupported("non unit coefficient")
                r = r / zr(abs(co))
                co = 1 if co > 0 else -1
            for o in ops:
                if co == -1:
                    # -v + r o 0  <=>  v o' r
                    bound = r
                    o2 = {"le": "ge", "ge": "le", "lt": "gt", "gt": "lt"}[o]
                else:
                    bound = -r
                    o2 = o
                if not v.is_int():
                    (hi if o2 in ("le", "lt") else lo).append(
                        (bound, o2 in ("lt", "gt")))
                    continue
                # integer v: round the bound
                if o2 in ("le", "lt"):
                    bi = _floor(bound)
                    if o2 == "lt":
                        bi = z3.If(z3.ToReal(bi) == bound, bi - 1, bi)
                    hi.append((bi, False))
                else:
                    bi = -_floor(-bound)
                    if o2 == "gt":
                        bi = z3.If(z3.ToReal(bi) == bound, bi + 1, bi)
                    lo.append((bi, False))
        for a, sa in lo:
            for b, sb in hi:
                f = z3.simplify(a < b if sa or sb else a <= b)
                if not z3.is_true(f):
                    rest.append(f)
        fs = rest
    return z3.simplify(z3.And(*fs)) if fs else z3.BoolVal(True)


class FakeLpModule:
    Solver = LpSolver


# --------------------------------------------------------------------------
# replay: the real solver, decision variables forced
# --------------------------------------------------------------------------
def forced_cp(real, c):
    class ForcedModel(real.CpModel):
        def __init__(self):
            super().__init__()
            self._vv = []

        def NewBoolVar(self, name=""):
            v = super().NewBoolVar(name)
            self._reg(v)
            return v

        def NewIntVar(self, lo, hi, name=""):
            v = super().NewIntVar(lo, hi, name)
            self._reg(v)
            return v

        new_bool_var = NewBoolVar
        new_int_var = NewIntVar

        def _reg(self, v):
            k = c.meta.get("nsv", 0)
            c.meta["nsv"] = k + 1
            self._vv.append((k, v))

        def force(self):
            for k, v in self._vv:
                val = c.svals.get(k, c.svals.get(str(k)))
                if val is not None:
                    super().Add(v == int(val))

    class ForcedSolver(real.CpSolver):
        def Solve(self, model, *a):
            if isinstance(model, ForcedModel):
                model.force()
            return super().Solve(model, *a)

        def solve(self, model, *a):
            return super().solve(model, *a)

    class M:
        def __getattr__(self, n):
            return getattr(real, n)
    m = M()
    m.CpModel = ForcedModel
    m.CpSolver = ForcedSolver
    return m


def forced_lp(real, c):
    class ForcedSolver:
        def __init__(self, *a):
            self.__dict__["_s"] = real.Solver(*a)
            self.__dict__["_vv"] = []

        def _reg(self, v, isint):
            k = c.meta.get("nsv", 0)
            c.meta["nsv"] = k + 1
            self._vv.append((k, v, isint))
            return v

        def BoolVar(self, name=""):
            return self._reg(self._s.BoolVar(name), True)

        def IntVar(self, lo, hi, name=""):
            return self._reg(self._s.IntVar(lo, hi, name), True)

        def NumVar(self, lo, hi, name=""):
            return self._reg(self._s.NumVar(lo, hi, name), False)

        def Solve(self, *a):
            for k, v, isint in self._vv:
                val = c.svals.get(k, c.svals.get(str(k)))
                if val is not None and isint:
                    self._s.Add(v == int(val))
            return self._s.Solve(*a)

        def __getattr__(self, n):
            return getattr(self._s, n)

    class Meta(type):
        def __getattr__(cls, n):
            return getattr(real.Solver, n)

    class Solver(ForcedSolver, metaclass=Meta):
        pass

    class M:
        def __getattr__(self, n):
            return getattr(real, n)
    m = M()
    m.Solver = Solver
    return m
