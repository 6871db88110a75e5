"""Path exploration and discharge of proof obligations."""

import os
import re
import sys
import time
import traceback

import z3

from . import core
from .core import (Sym, Fraction, PathAbort, PathCut, Unsupported,
                   Inconclusive, _CUR)
from .ctx import SymCtx, ConCtx, Stats, PROVE_TIMEOUT, CounterExample, _poly, _OPS
from . import patch


class ViolationFound(BaseException):
    def __init__(self, label, inputs, failures, info):
        self.label = label
        self.inputs = inputs
        self.failures = failures
        self.info = info


class Explorer:
    """Exhaustive exploration of ``body(ctx)`` for all decisions."""

    def __init__(self, name, body, max_paths=20000, max_depth=4000,
                 max_enum=64, timeout=600, prove_timeout=None,
                 known=None, log=print, tol=1e-7, nice=True, n_samples=6):
        self.name = name
        self.body = body
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.max_enum = max_enum
        self.timeout = timeout
        self.deadline = time.time() + timeout
        self.prove_timeout = prove_timeout or PROVE_TIMEOUT
        self.stats = Stats()
        self.stack = []
        self.known = known or []
        self.known_hit = {}
        self.log = log
        self.tol = tol
        self.nice = nice
        self.last_label = None
        self.samples = []
        self.n_samples = n_samples
        self.sample_tries = 0
        self.spurious = 0
        self.validated = 0
        self.functions = set()
        self.label_fail = {}

    def push(self, prefix):
        self.stack.append(prefix)

    # ------------------------------------------------------------------
    def run(self):
        self.stack = [[]]
        self.deadline = time.time() + self.timeout
        with patch.patched():
            while self.stack:
                prefix = self.stack.pop()
                if self.stats.paths + self.stats.aborted >= self.max_paths:
                    raise Inconclusive("path cap {} reached in {}".format(
                        self.max_paths, self.name))
                if time.time() > self.deadline:
                    raise Inconclusive("time budget exhausted in {}".format(
                        self.name))
                ctx = SymCtx(self, prefix)
                _CUR[0] = ctx
                try:
                    self.body(ctx)
                    self.stats.paths += 1
                    self._sample(ctx)
                except PathAbort:
                    self.stats.aborted += 1
                except PathCut:
                    self.stats.cut += 1
                except ViolationFound:
                    raise
                except (Unsupported, Inconclusive) as exc:
                    # no verdict on this path: run the real code on models
                    # of the path, remember that the proof is incomplete
                    self.degrade("{}: {}".format(
                        type(exc).__name__,
                        "".join(traceback.format_exception(exc))[-1200:]))
                    self._probe_path(ctx)
                    if time.time() > self.deadline or \
                            len(self.stats.degraded) > 25:
                        raise
                except Exception as exc:
                    # an exception the harness did not anticipate
                    tb = traceback.format_exc()
                    if self._engine_fault(exc, tb):
                        raise Unsupported(
                            "engine fault in {}: {}\n{}".format(
                                self.name, exc, tb))
                    self.stats.exceptions[type(exc).__name__] = \
                        self.stats.exceptions.get(type(exc).__name__, 0) + 1
                    try:
                        self.check_violation(
                            ctx, z3.BoolVal(True),
                            "unexpected {}".format(type(exc).__name__),
                            str(exc) + "\n" + tb, None)
                        self.stats.paths += 1
                    except (Unsupported, Inconclusive) as e2:
                        self.degrade("{}: {}".format(
                            type(e2).__name__, str(e2)[-1500:]))
                        self._probe_path(ctx)
                        if len(self.stats.degraded) > 25:
                            raise
                finally:
                    _CUR[0] = None
        return self.stats

    def degrade(self, why):
        self.stats.degraded.append(why)

    def _probe_path(self, ctx, k=3):
        """models of an undecided path, executed on the real code"""
        try:
            s = z3.Solver()
            s.set("timeout", 3000)
            s.set("random_seed", core.SEED)
            s.add(*ctx.path)
            for _ in range(k):
                if s.check() != z3.sat:
                    return
                m = s.model()
                vals = ctx.extract(m)
                if ctx.meta.get("solve_mode") == "collect":
                    # the assignment may not be constrained yet: let the
                    # real solver choose
                    vals.pop("__solver__", None)
                self._run_real(vals)
                blk = [v != m.eval(v, model_completion=True)
                       for v in ctx.inputs.values()]
                if not blk:
                    return
                s.add(z3.Or(*blk))
        except Unsupported:
            return

    def _run_real(self, vals, functions=False):
        """execute the harness on the real code; a failed assertion there is
        a violation whatever the proof status"""
        prof = None
        if functions:
            fs = self.functions

            def prof(frame, event, arg):
                if event == "call":
                    co = frame.f_code
                    fn = co.co_filename
                    i = fn.find("/optbinning/")
                    if i >= 0 and "site-packages" not in fn:
                        fs.add(fn[i + 1:] + ":" + co.co_qualname)
        if prof:
            sys.setprofile(prof)
        try:
            ok, failures, err = self.replay(vals)
        finally:
            if prof:
                sys.setprofile(None)
        if ok:
            raise ViolationFound(failures[0][0], vals, failures,
                                 "found by executing the real code on a "
                                 "solver model")
        if err is None:
            self.validated += 1

    def validate(self):
        """run the real code on models of explored paths"""
        for n, vals in enumerate(self.samples):
            try:
                self._run_real(vals, functions=(n < 3))
            except ViolationFound as v:
                return dict(label=v.label, inputs=jsonable(v.inputs),
                            failures=[[str(a), str(b)[-1500:]]
                                      for a, b in v.failures[:5]],
                            info=v.info)
        return None

    def samples_js(self):
        return [{k: _js(x) for k, x in v.items() if k != "__solver__"}
                for v in self.samples]

    def _engine_fault(self, exc, tb=None):
        """A harness that names something the code no longer has (a private
        helper after a refactoring), or a stand-in that the code calls in a
        new way, says nothing about the property."""
        t = exc.__traceback__
        last = None
        while t is not None:
            last = t
            t = t.tb_next
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        ours = last is not None and \
            last.tb_frame.f_code.co_filename.startswith(here + os.sep)
        msg = str(exc)
        if isinstance(exc, (AttributeError, NameError, ImportError)):
            mod = type(getattr(exc, "obj", None)).__module__
            return ours or mod.split(".")[0] in ("checks", "symex")
        if isinstance(exc, TypeError):
            m = _ARITY.match(msg)
            return bool(m) and (ours or _is_standin(m.group(1)))
        return ours and isinstance(exc, ValueError) and \
            "values to unpack" in msg

    def _sample(self, ctx):
        """keep models of a spread of the explored paths"""
        n = self.stats.paths
        if len(self.samples) >= self.n_samples:
            if n & (n - 1):      # powers of two replace an old sample
                return
        if not (ctx.inputs or ctx.choices):
            if not self.samples:
                self.samples.append({})
            return
        lem = ctx.lemmas(ctx.path)
        m = None
        for l, tmo in ((lem, 600), ([], 2000)):
            if l and self.sample_tries > 2 * self.n_samples:
                continue
            s = z3.Solver()
            s.set("timeout", tmo)
            s.set("random_seed", core.SEED + n)
            s.add(*ctx.path)
            s.add(*l)
            if l:
                self.sample_tries += 1
            if s.check() == z3.sat:
                m = s.model()
                break
        if m is None:
            return
        try:
            v = ctx.extract(m)
        except Unsupported:
            return
        if len(self.samples) >= self.n_samples:
            self.samples[n % self.n_samples] = v
        else:
            self.samples.append(v)

    # ------------------------------------------------------------------
    def check_violation(self, ctx, neg, label, info, timeout):
        """Is (path and neg) satisfiable?  Discharge, report or give up."""
        st = self.stats
        timeout = timeout or self.prove_timeout
        if not ctx._plain(neg):
            if self._query(ctx, ctx.solver, [neg], 1000) == z3.unsat:
                st.discharged += 1
                return
            _OPS[0] = 300000
            ok = self._ratform_eq(ctx, neg)
            _OPS[0] = 10 ** 12
            if ok:
                st.discharged += 1
                return
        # fast: main solver with abstractions
        r = self._query(ctx, ctx.solver, [neg], min(timeout, 8000))
        if r == z3.unsat:
            st.discharged += 1
            return
        lem = ctx.lemmas(ctx.path + [neg])
        model = None
        if not lem and r == z3.sat:
            model = True
            s = ctx.solver
            extra = [neg]
        else:
            verdict, s, extra = self._precise(ctx, neg, lem, timeout)
            if verdict == "unsat":
                st.discharged += 1
                return
            if verdict == "sat":
                model = True
        self._refute(ctx, neg, lem, label, info, s if model else None, extra)

    def _query(self, ctx, solver, extra, timeout):
        st = self.stats
        st.queries += 1
        t = time.perf_counter()
        solver.set("timeout", int(timeout))
        r = solver.check(*extra)
        from .ctx import FEAS_TIMEOUT
        solver.set("timeout", FEAS_TIMEOUT)
        st.solver_s += time.perf_counter() - t
        return r

    def _ratform_eq(self, ctx, neg):
        """neg is a disjunction of negated equalities between reals: all
        must be identically false after clearing denominators."""
        lits = list(neg.children()) if z3.is_or(neg) else [neg]
        ok = True
        sub = []
        for f in ctx.path:
            if z3.is_eq(f) and z3.is_arith(f.arg(0)):
                for x, v in (f.children(), f.children()[::-1]):
                    if z3.is_const(x) and not _isval(x) and _isval(v) and \
                            x.sort() == v.sort():
                        sub.append((x, v))
            else:
                x = ctx.at_bound(f)
                if x is not None:
                    sub.append(x)
        for l in lits:
            if not (z3.is_not(l) and z3.is_eq(l.arg(0)) and
                    z3.is_arith(l.arg(0).arg(0))):
                return False
        self.stats.queries += 1
        t = time.perf_counter()
        for l in lits:
            a, b = l.arg(0).children()
            d = core.zreal(core.lift(a)) - core.zreal(core.lift(b)) \
                if False else _toreal(a) - _toreal(b)
            P, Q = ctx.ratform(d)
            try:
                if sub:
                    P = z3.substitute(P, *sub)
                if not _poly(P, {}, {}, 4000)[0]:
                    continue
                if ctx.sqrts and not ctx.reduce_sqrt(P):
                    continue
                ok = False
                break
            except OverflowError:
                pass
            if ctx._size(P) > 2000:
                ok = False
                break
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(z3.simplify(P, som=True) != 0)
            if s.check() != z3.unsat:
                ok = False
                break
        self.stats.solver_s += time.perf_counter() - t
        return ok

    def _precise(self, ctx, neg, lem, timeout):
        base = list(ctx.path) + [neg] + lem
        for mk in (lambda: z3.Solver(),
                   lambda: z3.SolverFor("QF_NRA")
                   if not _has_int(base) else None,
                   lambda: z3.Then("simplify", "solve-eqs",
                                   "smt").solver()):
            s = mk()
            if s is None:
                continue
            s.add(*base)
            r = self._query(ctx, s, [], timeout)
            if r == z3.unsat:
                return "unsat", s, []
            if r == z3.sat:
                return "sat", s, []
        return "unknown", None, []

    def _refute(self, ctx, neg, lem, label, info, s, extra):
        """Try to obtain a counterexample that the real code confirms."""
        tried = []
        cands = []

        def models():
            # 1. nice model
            if s is not None:
                base = list(ctx.path) + [neg] + lem
                if self.nice:
                    n = z3.Solver()
                    n.set("timeout", 5000)
                    n.add(*base)
                    for k, v in ctx.inputs.items():
                        if ctx.kinds[k] == "r":
                            iv = z3.Int("nice!" + k)
                            n.add(v * 8 == z3.ToReal(iv))
                            n.add(iv >= -8000, iv <= 8000)
                    if n.check() == z3.sat:
                        yield n.model()
                n = z3.Solver()
                n.set("timeout", 10000)
                n.add(*base)
                if n.check() == z3.sat:
                    yield n.model()
            # 2. abstract model
            a = z3.Solver()
            a.set("timeout", 5000)
            a.add(*(list(ctx.path) + [neg]))
            for seed in range(4):
                a.set("random_seed", seed + core.SEED)
                if a.check() == z3.sat:
                    m = a.model()
                    yield m
                    # block these inputs
                    blk = [v != m.eval(v, model_completion=True)
                           for v in ctx.inputs.values()]
                    if not blk:
                        break
                    a.add(z3.Or(*blk))
                else:
                    break

        sat_seen = s is not None
        for m in models():
            try:
                vals = ctx.extract(m)
            except Unsupported:
                continue
            key = repr(sorted((k, repr(v)) for k, v in vals.items()))
            if key in tried:
                continue
            tried.append(key)
            ok, failures, err = self.replay(vals)
            if ok:
                self.stats.violated += 1
                kf = self.is_known(failures, vals, label)
                if kf is not None:
                    self.known_hit[kf["id"]] = (label, vals, failures)
                    return
                raise ViolationFound(label, vals, failures, info)
        self.stats.unknown += 1
        if sat_seen:
            self.spurious += 1
            raise Inconclusive(
                "counterexample of '{}' in {} does not reproduce on the real "
                "code: {} ({})".format(label, self.name,
                                       tried[:1], (info or "")[-1500:]))
        raise Inconclusive("solver gave no verdict for '{}' in {} ({})".format(
            label, self.name, (info or "")[:300]))

    def replay(self, vals):
        """Run the same body on the unpatched code with concrete values."""
        prev = _CUR[0]
        _CUR[0] = None
        try:
            with patch.unpatched():
                c = ConCtx(vals, tol=self.tol)
                try:
                    with patch.concrete(c):
                        self.body(c)
                except PathAbort:
                    return False, [], "assumption not met"
                except PathCut:
                    return False, [], "cut"
                except (Unsupported, Inconclusive):
                    raise
                except Exception as exc:
                    if self._engine_fault(exc) and not c.failures:
                        raise Unsupported("harness fault in {}: {}".format(
                            self.name, traceback.format_exc()[-1500:]))
                    c.failures.append((
                        "unexpected {}".format(type(exc).__name__),
                        traceback.format_exc()))
                return bool(c.failures), c.failures, None
        finally:
            _CUR[0] = prev

    def is_known(self, failures, vals, label):
        """every failure of this counterexample is a listed finding"""
        hit = None
        for fl, info in failures:
            m = [k for k in self.known
                 if k["match"](self.name, fl, vals, info)]
            if not m:
                return None
            hit = m[0]
        return hit


_ARITY = re.compile(
    r"([\w.<>]+)\(\) (?:takes|missing|got an unexpected|got multiple)")


def _is_standin(name):
    """does a qualified name belong to a harness or a stand-in?"""
    if "<locals>" in name or "<lambda>" in name:
        return True
    for k, mod in list(sys.modules.items()):
        if k.split(".")[0] in ("checks", "symex"):
            o = mod
            for part in name.split("."):
                o = getattr(o, part, None)
                if o is None:
                    break
            if o is not None and getattr(
                    o, "__module__", "").split(".")[0] in ("checks", "symex"):
                return True
    return False


def _isval(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def _toreal(e):
    return z3.ToReal(e) if e.is_int() else e


def _has_int(exprs):
    seen = set()
    stack = list(exprs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_arith(e) and e.is_int() and not z3.is_int_value(e):
            return True
        stack.extend(e.children())
    return False


def jsonable(vals):
    def f(x):
        if isinstance(x, Fraction):
            return "F:{}/{}".format(x.numerator, x.denominator)
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        return x
    return {k: f(v) for k, v in vals.items()}


def unjson(vals):
    def f(x):
        if isinstance(x, str) and x.startswith("F:"):
            return Fraction(x[2:])
        if isinstance(x, dict):
            return {int(k): f(v) for k, v in x.items()}
        return x
    return {k: f(v) for k, v in vals.items()}


def _js(x):
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    return x
