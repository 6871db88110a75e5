"""numpy stand-in: arrays of symbolic scalars, and a proxy of the module."""

import builtins
import functools
import math
import operator
import sys

import numpy as np

from . import core
from .core import (Sym, Unsupported, s_add, s_sub, s_mul, s_div, s_ite,
                   s_max, s_min, s_and, s_or, is_num)

_F = np.dtype(float)
_I = np.dtype(np.int64)
_B = np.dtype(bool)
_O = np.dtype(object)


def _guess(a):
    """logical dtype of an object array."""
    k = None
    for e in a.ravel().tolist() if a.size else []:
        if isinstance(e, Sym):
            t = {"b": 0, "i": 1, "r": 2}[e.kind]
        elif isinstance(e, (bool, np.bool_)):
            t = 0
        elif isinstance(e, (int, np.integer)):
            t = 1
        elif isinstance(e, (float, np.floating)):
            t = 2
        else:
            return _O
        k = t if k is None else max(k, t)
    return {None: _F, 0: _B, 1: _I, 2: _F}[k]


def _npf(r):
    # elements of arrays are numpy scalars: x / 0 is not an exception
    return np.float64(r) if type(r) is float else r


class SymArray(np.ndarray):
    def __new__(cls, data, ld=None):
        a = np.asarray(data, dtype=object)
        o = a.view(cls)
        o._ld = ld
        return o

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", None)

    @property
    def dtype(self):
        if self._ld is not None:
            return self._ld
        return _guess(self._raw())

    def _raw(self):
        return np.ndarray.view(self, np.ndarray)

    # -- indexing ----------------------------------------------------------
    def _fixidx(self, idx):
        if isinstance(idx, tuple):
            return tuple(self._fix1(i) for i in idx)
        return self._fix1(idx)

    def _fix1(self, i):
        if isinstance(i, Sym):
            if i.kind == "b":
                return builtins.bool(i)
            return i.__index__()
        if isinstance(i, SymSeries):
            i = i.values
        if isinstance(i, np.ndarray) and i.dtype == object or \
                isinstance(i, SymArray):
            raw = np.asarray(i, dtype=object)
            raw = raw.view(np.ndarray)
            return _concrete_index(raw, getattr(i, "_ld", None))
        if isinstance(i, list) and i and any(isinstance(e, Sym) for e in i):
            return _concrete_index(np.array(i, dtype=object), None)
        return i

    def __getitem__(self, idx):
        if not isinstance(idx, tuple) and isinstance(idx, Sym) and \
                idx.kind == "i" and self.ndim == 1:
            return _gather(self._raw(), idx)
        if isinstance(idx, np.ndarray) and self.ndim == 1 and \
                _has_sym_int(idx):
            raw = self._raw()
            flat = [_gather(raw, i) for i in np.asarray(
                idx, dtype=object).ravel()]
            out = np.empty(len(flat), dtype=object)
            for k, v in enumerate(flat):
                out[k] = v
            return SymArray(out.reshape(idx.shape), self._ld)
        r = self._raw()[self._fixidx(idx)]
        if isinstance(r, np.ndarray):
            return SymArray(r, self._ld)
        return _npf(r)

    def __setitem__(self, idx, v):
        raw = self._raw()
        if isinstance(v, SymSeries):
            v = v.values
        if isinstance(idx, np.ndarray) and idx.shape == self.shape and \
                _has_sym_bool(idx):
            sv = v
            if isinstance(sv, np.ndarray) and sv.ndim == 0:
                sv = sv.item()
            if not isinstance(sv, (np.ndarray, list, tuple)):
                sv = self._coerce(sv)
                ii = np.asarray(idx, dtype=object)
                for k in np.ndindex(*self.shape):
                    raw[k] = s_ite(ii[k], sv, raw[k])
                return
        if isinstance(idx, Sym) and idx.kind == "i" and self.ndim == 1 and \
                not isinstance(v, (np.ndarray, list, tuple)):
            n = len(raw)
            i = _bound(idx, n)
            sv = self._coerce(v)
            for k in range(n):
                raw[k] = s_ite(core.s_eq(i, k), sv, raw[k])
            return
        i = self._fixidx(idx)
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            if isinstance(v, np.ndarray):
                vv = np.asarray(v, dtype=object).view(np.ndarray)
            else:
                vv = to_obj(v)
            vv = _map(self._coerce, vv)
            raw[i] = vv
        else:
            sv = self._coerce(v)
            if isinstance(sv, (dict, set)) and isinstance(i, slice):
                raw[i] = [sv] * len(raw[i])
            else:
                raw[i] = sv

    def _coerce(self, v):
        ld = self._ld
        if ld is None or ld == _O or isinstance(v, str):
            if isinstance(v, str) and ld is not None and ld.kind in "fiub":
                raise ValueError("could not convert string to float")
            return v
        if isinstance(v, Sym) or is_num(v):
            if ld.kind in "iu" and core.is_nonfinite(v):
                return v
            return core.cast(v, ld)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return self._coerce(v.item())
        if isinstance(v, (dict, list)):
            raise TypeError("float() argument must be a string or a real "
                            "number, not {!r}".format(type(v).__name__))
        return v

    # -- ufuncs / functions --------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return dispatch_function(func, args, kwargs)

    # -- methods -------------------------------------------------------------
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _npf(npf_sum(self, axis=axis, dtype=dtype, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _npf(npf_mean(self, axis=axis))

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return _npf(npf_std(self, axis=axis, ddof=ddof))

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return _npf(npf_var(self, axis=axis, ddof=ddof))

    def prod(self, axis=None, **k):
        return _npf(_reduce(self, s_mul, 1, axis))

    def max(self, axis=None, **k):
        return _npf(_reduce(self, s_max, None, axis))

    def min(self, axis=None, **k):
        return _npf(_reduce(self, s_min, None, axis))

    def any(self, axis=None, **k):
        return npf_any(self, axis)

    def all(self, axis=None, **k):
        return npf_all(self, axis)

    def cumsum(self, axis=None, dtype=None, out=None):
        return npf_cumsum(self, axis)

    def astype(self, t, *a, **k):
        dt = _dt(t)
        if dt == _O:
            return SymArray(self._raw().copy(), _O)
        return SymArray(_map(lambda e: core.cast(e, dt), self._raw()), dt)

    def copy(self, order="C"):
        return SymArray(self._raw().copy(), self._ld)

    def round(self, decimals=0, out=None):
        return SymArray(_map(lambda e: core.s_round(e, decimals),
                             self._raw()), self._ld)

    def clip(self, lo=None, hi=None, **k):
        return npf_clip(self, lo, hi)

    def dot(self, o):
        return npf_dot(self, o)

    def item(self, *a):
        return self._raw().item(*a)

    def tolist(self):
        return self._raw().tolist()

    def nonzero(self):
        return np.nonzero(_tobool(self))

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return npf_argsort(self)

    def sort(self, axis=-1, kind=None, order=None, **k):
        if self.ndim != 1:
            raise Unsupported("sort nd")
        self._raw()[:] = to_obj(_sorted(self._raw().tolist()))

    def argmax(self, axis=None, **k):
        return _argext(self, lambda a, b: core.s_gt(a, b))

    def argmin(self, axis=None, **k):
        return _argext(self, lambda a, b: core.s_lt(a, b))

    def searchsorted(self, v, side="left", sorter=None):
        return npf_searchsorted(self, v, side)

    def ravel(self, order="C"):
        return SymArray(self._raw().ravel(), self._ld)

    def reshape(self, *s, **k):
        return SymArray(self._raw().reshape(*s, **k), self._ld)

    def flatten(self, order="C"):
        return SymArray(self._raw().flatten(), self._ld)

    def squeeze(self, axis=None):
        return SymArray(self._raw().squeeze(axis), self._ld)

    def fill(self, v):
        self[...] = v

    def repeat(self, n, axis=None):
        return SymArray(self._raw().repeat(n, axis), self._ld)

    def __bool__(self):
        if self.size == 1:
            return builtins.bool(self._raw().item())
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one "
                         "element is ambiguous. Use a.any() or a.all()")

    def __contains__(self, v):
        return builtins.bool(npf_any(elementwise(core.s_eq, self, v)))

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        raw = self._raw()
        for i in range(len(raw)):
            e = raw[i]
            yield SymArray(e, self._ld) if isinstance(e, np.ndarray) and \
                self.ndim > 1 else _npf(e)

    def __int__(self):
        return int(core.sym_int(self.item()))

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic array")

    # comparisons through elementwise to avoid C level surprises
    def __eq__(self, o): return _cmpop(core.s_eq, self, o)
    def __ne__(self, o): return _cmpop(core.s_ne, self, o)
    def __lt__(self, o): return _cmpop(core.s_lt, self, o)
    def __le__(self, o): return _cmpop(core.s_le, self, o)
    def __gt__(self, o): return _cmpop(core.s_gt, self, o)
    def __ge__(self, o): return _cmpop(core.s_ge, self, o)
    __hash__ = None

    def __add__(self, o): return _arop(s_add, self, o)
    def __radd__(self, o): return _arop(s_add, o, self)
    def __sub__(self, o): return _arop(s_sub, self, o)
    def __rsub__(self, o): return _arop(s_sub, o, self)
    def __mul__(self, o): return _arop(s_mul, self, o)
    def __rmul__(self, o): return _arop(s_mul, o, self)
    def __truediv__(self, o): return _arop(s_div, self, o)
    def __rtruediv__(self, o): return _arop(s_div, o, self)
    def __floordiv__(self, o): return _arop(core.s_floordiv, self, o)
    def __mod__(self, o): return _arop(core.s_mod, self, o)
    def __pow__(self, o): return _arop(core.s_pow, self, o)
    def __rpow__(self, o): return _arop(core.s_pow, o, self)
    def __and__(self, o): return _arop(s_and, self, o)
    def __rand__(self, o): return _arop(s_and, o, self)
    def __or__(self, o): return _arop(s_or, self, o)
    def __ror__(self, o): return _arop(s_or, o, self)
    def __xor__(self, o): return _arop(core.s_xor, self, o)
    def __invert__(self): return elementwise(core.s_invert, self)
    def __neg__(self): return elementwise(core.s_neg, self)
    def __abs__(self): return elementwise(core.s_abs, self)
    def __matmul__(self, o): return npf_dot(self, o)
    def __rmatmul__(self, o): return npf_dot(o, self)

    def _iop(self, f, o):
        self[...] = elementwise(f, self, o)
        return self

    def __iadd__(self, o): return self._iop(s_add, o)
    def __isub__(self, o): return self._iop(s_sub, o)
    def __imul__(self, o): return self._iop(s_mul, o)
    def __itruediv__(self, o): return self._iop(s_div, o)
    def __iand__(self, o): return self._iop(s_and, o)
    def __ior__(self, o): return self._iop(s_or, o)

    @property
    def T(self):
        return SymArray(self._raw().T, self._ld)

    @property
    def values(self):
        raise AttributeError("values")


def _cmpop(f, a, b):
    r = elementwise(f, a, b)
    if isinstance(r, SymArray):
        raw = r._raw()
        if raw.size and all(type(e) in (bool, np.bool_)
                            for e in raw.ravel().tolist()):
            # fully concrete mask: a plain array, usable as an index anywhere
            return raw.astype(bool)
    return r


def _arop(f, a, b):
    if isinstance(a, SymSeries):
        a = a.values
    if isinstance(b, SymSeries):
        b = b.values
    return elementwise(f, a, b)


def _has_sym_int(a):
    if a.ndim == 0 or a.size == 0:
        return False
    r = np.asarray(a, dtype=object) if isinstance(a, SymArray) or \
        a.dtype == object else None
    if r is None:
        return False
    return any(isinstance(e, Sym) and e.kind == "i"
               for e in r.view(np.ndarray).ravel().tolist())


def _has_sym_bool(a):
    if not (isinstance(a, SymArray) or np.ndarray.dtype.__get__(a) == _O):
        return False
    return any(isinstance(e, Sym) and e.kind == "b"
               for e in np.asarray(a, dtype=object).view(
                   np.ndarray).ravel().tolist())


def _concrete_index(raw, ld):
    """object index array -> real numpy index (forks on symbolic entries)"""
    flat = raw.ravel().tolist()
    if not flat:
        if ld is not None and ld.kind == "b":
            return np.zeros(raw.shape, dtype=bool)
        return np.zeros(raw.shape, dtype=np.intp)
    if all(isinstance(e, (bool, np.bool_)) or
           (isinstance(e, Sym) and e.kind == "b") for e in flat):
        return np.array([builtins.bool(e) for e in flat],
                        dtype=bool).reshape(raw.shape)
    if ld is not None and ld.kind == "f" or any(
            isinstance(e, (float, np.floating)) for e in flat):
        raise IndexError("arrays used as indices must be of integer (or "
                         "boolean) type")
    if any(isinstance(e, (np.ndarray, list, tuple)) for e in flat):
        raise IndexError("arrays used as indices must be of integer (or "
                         "boolean) type")
    return np.array([operator.index(e) for e in flat],
                    dtype=np.intp).reshape(raw.shape)


def _bound(i, n):
    """check bounds (fork), normalise a negative symbolic index."""
    if not isinstance(i, Sym):
        if not -n <= i < n:
            raise IndexError("index {} is out of bounds".format(i))
        return i + n if i < 0 else i
    c = core.cur()
    e = core.zr(i)
    if not c.branch(e < n) or not c.branch(e >= -n):
        raise IndexError("index out of bounds for axis 0 with size %d" % n)
    if c.branch(e >= 0):
        return i
    return s_add(i, n)


def _gather(raw, i):
    n = len(raw)
    i = _bound(i, n)
    if not isinstance(i, Sym):
        return raw[i]
    c = core.cur()
    feas = [k for k in range(n)]
    if all(isinstance(raw[k], Sym) or (is_num(raw[k]) and
                                       not core.is_nonfinite(raw[k]))
           for k in feas):
        r = raw[n - 1]
        for k in range(n - 2, -1, -1):
            r = s_ite(core.s_eq(i, k), raw[k], r)
        return r
    return raw[i.__index__()]


def to_obj(v):
    """nested sequences -> object ndarray (no Sym conversions)"""
    if isinstance(v, SymArray):
        return v._raw()
    if isinstance(v, SymSeries):
        return v.values._raw()
    if isinstance(v, np.ndarray):
        return v.astype(object) if np.ndarray.dtype.__get__(v) != _O else v
    if isinstance(v, (list, tuple)):
        if not len(v):
            return np.empty(0, dtype=object)
        items = [to_obj(e) if isinstance(e, (list, tuple, np.ndarray,
                                             SymSeries)) else e for e in v]
        if all(isinstance(e, np.ndarray) for e in items):
            shp = {e.shape for e in items}
            if len(shp) == 1:
                s = shp.pop()
                out = np.empty((len(items),) + s, dtype=object)
                for i, e in enumerate(items):
                    out[i] = e
                return out
            out = np.empty(len(items), dtype=object)
            for i, e in enumerate(items):
                out[i] = e
            return out
        out = np.empty(len(items), dtype=object)
        for i, e in enumerate(items):
            out[i] = core.py(e) if not isinstance(e, np.ndarray) else (
                e.item() if e.ndim == 0 else e)
        return out
    out = np.empty((), dtype=object)
    out[()] = core.py(v)
    return out


def wrap(v, ld=None):
    if isinstance(v, SymArray):
        return v
    if isinstance(v, np.ndarray) and np.ndarray.dtype.__get__(v) != _O \
            and ld is None:
        ld = v.dtype
    a = to_obj(v)
    return SymArray(a, ld)


def _dt(t):
    if t is None:
        return None
    if t is SymInt or t is builtins.int:
        return _I
    if t is SymFloat or t is builtins.float:
        return _F
    if isinstance(t, str) and t in ("object", "O"):
        return _O
    return np.dtype(t)


def _map(f, raw, otype=object):
    if raw.ndim == 0:
        out = np.empty((), dtype=object)
        out[()] = f(raw.item())
        return out
    out = np.empty(raw.shape, dtype=object)
    rf = raw.ravel().tolist() if raw.size else []
    of = out.reshape(-1)
    for i, e in enumerate(rf):
        of[i] = f(e)
    return out


_BOOLF = {core.s_eq, core.s_ne, core.s_lt, core.s_le, core.s_gt, core.s_ge,
          core.s_not}


def elementwise(f, *args, ld=None):
    objs = []
    for a in args:
        o = to_obj(a) if isinstance(a, (np.ndarray, list, tuple,
                                        SymSeries)) else to_obj_scalar(a)
        objs.append(o)
    if all(o.ndim == 0 for o in objs):
        return f(*[o.item() for o in objs])
    bs = np.broadcast_arrays(*objs)
    out = np.empty(bs[0].shape, dtype=object)
    of = out.reshape(-1)
    its = [b.ravel().tolist() if b.size else [] for b in bs]
    for i, t in enumerate(zip(*its)):
        of[i] = f(*t)
    if ld is None and (f in _BOOLF):
        ld = _B
    if ld is None and out.size == 0:
        for a in args:
            if isinstance(a, SymArray) and a._ld is not None:
                ld = a._ld
                break
    if ld is None and out.size:
        ld = _guess(out)
        if ld == _O:
            ld = None
    return SymArray(out, ld)


def to_obj_scalar(v):
    o = np.empty((), dtype=object)
    o[()] = core.py(v)
    return o


def _tobool(a):
    raw = to_obj(a)
    return np.array([builtins.bool(e) for e in raw.ravel().tolist()],
                    dtype=bool).reshape(raw.shape)


def _fold(f, items, init):
    r = init
    for e in items:
        r = e if r is None else f(r, e)
    return r


def _num(e):
    if isinstance(e, (bool, np.bool_)):
        return int(e)
    if isinstance(e, Sym) and e.kind == "b":
        return core.lift(core.zr(e))
    return e


def _reduce(a, f, init, axis=None, keepdims=False):
    raw = to_obj(a)
    if axis is None:
        items = raw.ravel().tolist()
        if not items and init is None:
            raise ValueError("zero-size array to reduction operation which "
                             "has no identity")
        return _fold(f, items, init)
    if axis < 0:
        axis += raw.ndim
    moved = np.moveaxis(raw, axis, 0)
    shp = moved.shape[1:]
    if not shp:
        items = moved.tolist()
        if not items and init is None:
            raise ValueError("zero-size array to reduction operation")
        return _fold(f, items, init)
    out = np.empty(shp, dtype=object)
    for k in np.ndindex(*shp):
        out[k] = _fold(f, [moved[(i,) + k] for i in range(moved.shape[0])],
                       init)
    return SymArray(out, getattr(a, "_ld", None)
                    if getattr(a, "_ld", None) != _B else None)


def npf_sum(a, axis=None, dtype=None, keepdims=False, **k):
    if not isinstance(a, np.ndarray):
        if hasattr(a, "__iter__") and not isinstance(
                a, (list, tuple, SymSeries)):
            a = list(a)
    raw = to_obj(a)
    ld = getattr(a, "_ld", None)
    zero = 0.0 if (ld is not None and ld.kind == "f") or (
        raw.size == 0 and ld is None) else 0
    return _reduce(SymArray(_map(_num, raw), ld), s_add, zero, axis)


def npf_nansum(a, axis=None, **k):
    raw = to_obj(a)
    raw = _map(lambda e: 0 if core.is_nonfinite(e) and math.isnan(e)
               else _num(e), raw)
    return _reduce(SymArray(raw), s_add, 0, axis)


def npf_mean(a, axis=None, **k):
    raw = to_obj(a)
    if axis is None:
        if raw.size == 0:
            return math.nan
        return s_div(npf_sum(a), raw.size)
    return elementwise(s_div, npf_sum(a, axis=axis), raw.shape[axis])


def npf_var(a, axis=None, ddof=0, **k):
    if axis not in (None, 0) or to_obj(a).ndim != 1:
        if axis is None:
            a = wrap(a).ravel()
        else:
            raise Unsupported("var with axis")
    raw = to_obj(a)
    n = raw.size
    if n - ddof <= 0:
        return math.nan
    if core.symbolic_active() and core.cur().meta.get("lazy") and \
            any(isinstance(e, Sym) for e in raw.tolist()):
        return core.cur().uf("opaque_var", *raw.tolist())
    m = npf_mean(a)
    return s_div(_fold(s_add, [s_mul(s_sub(e, m), s_sub(e, m))
                               for e in raw.tolist()], 0), n - ddof)


def npf_std(a, axis=None, ddof=0, **k):
    v = npf_var(a, axis, ddof)
    if isinstance(v, Sym):
        # variance is non negative: no fork
        c = core.cur()
        if c.meta.get("lazy"):
            return core.s_sqrt(v)
        c.assume_light(core.lift(core.zr(v) >= 0))
        return c.sqrt(v)
    return core.s_sqrt(v)


def npf_any(a, axis=None, **k):
    raw = _map(lambda e: e if _isb(e) else core.s_ne(e, 0), to_obj(a))
    return _reduce(SymArray(raw, _B), s_or, False, axis)


def npf_all(a, axis=None, **k):
    raw = _map(lambda e: e if _isb(e) else core.s_ne(e, 0), to_obj(a))
    return _reduce(SymArray(raw, _B), s_and, True, axis)


def _isb(e):
    return isinstance(e, (bool, np.bool_)) or (isinstance(e, Sym) and
                                               e.kind == "b")


def npf_cumsum(a, axis=None, **k):
    raw = to_obj(a)
    if raw.ndim != 1:
        if axis is None:
            raw = raw.ravel()
        else:
            out = np.empty(raw.shape, dtype=object)
            mv = np.moveaxis(raw, axis, -1)
            ov = np.moveaxis(out, axis, -1)
            for kk in np.ndindex(*mv.shape[:-1]):
                acc = 0
                for i in range(mv.shape[-1]):
                    acc = s_add(acc, _num(mv[kk + (i,)]))
                    ov[kk + (i,)] = acc
            return SymArray(out, getattr(a, "_ld", None))
    out = np.empty(raw.shape, dtype=object)
    acc = 0
    for i, e in enumerate(raw.tolist()):
        acc = s_add(acc, _num(e))
        out[i] = acc
    return SymArray(out)


def npf_dot(a, b):
    ra, rb = to_obj(a), to_obj(b)
    if ra.ndim == 1 and rb.ndim == 1:
        if len(ra) != len(rb):
            raise ValueError("shapes not aligned")
        return _fold(s_add, [s_mul(x, y) for x, y in
                             zip(ra.tolist(), rb.tolist())], 0)
    if ra.ndim == 2 and rb.ndim == 1:
        return SymArray(to_obj([npf_dot(r, rb) for r in ra]))
    if ra.ndim == 1 and rb.ndim == 2:
        return SymArray(to_obj([npf_dot(ra, rb[:, j])
                                for j in range(rb.shape[1])]))
    if ra.ndim == 2 and rb.ndim == 2:
        return SymArray(to_obj([[npf_dot(r, rb[:, j])
                                 for j in range(rb.shape[1])] for r in ra]))
    raise Unsupported("dot")


def npf_clip(a, lo=None, hi=None, **k):
    def f(e):
        if lo is not None:
            e = s_max(e, lo)
        if hi is not None:
            e = s_min(e, hi)
        return e
    if lo is not None and hasattr(lo, "__len__") or \
            hi is not None and hasattr(hi, "__len__"):
        r = a
        if lo is not None:
            r = elementwise(s_max, r, lo)
        if hi is not None:
            r = elementwise(s_min, r, hi)
        return r
    return elementwise(f, a)


def npf_count_nonzero(a, axis=None, **k):
    raw = _map(lambda e: (_num(e) if _isb(e) else
                          s_ite(core.s_ne(e, 0), 1, 0)), to_obj(a))
    return _reduce(SymArray(raw, _I), s_add, 0, axis)


def npf_digitize(x, bins, right=False):
    b = to_obj(bins).tolist()
    # numpy requires monotonic bins
    inc = all(builtins.bool(core.s_le(b[i], b[i + 1]))
              for i in range(len(b) - 1))
    if not inc:
        dec = all(builtins.bool(core.s_ge(b[i], b[i + 1]))
                  for i in range(len(b) - 1))
        if not dec:
            raise ValueError("bins must be monotonically increasing or "
                             "decreasing")
        raise Unsupported("digitize with decreasing bins")

    def f(e):
        if core.is_nonfinite(e) and math.isnan(e):
            return len(b)
        r = 0
        for s in b:
            c = core.s_gt(e, s) if right else core.s_ge(e, s)
            r = s_add(r, s_ite(c, 1, 0))
        return r
    return elementwise(f, x, ld=_I)


def npf_searchsorted(a, v, side="left", sorter=None):
    b = to_obj(a).tolist()

    def f(e):
        r = 0
        for s in b:
            c = core.s_lt(s, e) if side == "left" else core.s_le(s, e)
            r = s_add(r, s_ite(c, 1, 0))
        return r
    return elementwise(f, v, ld=_I)


def npf_where(c, *xy):
    if not xy:
        return np.nonzero(_tobool(c))
    return elementwise(s_ite, c, xy[0], xy[1])


def npf_nonzero(a):
    return np.nonzero(_tobool(a))


def npf_flatnonzero(a):
    return np.flatnonzero(_tobool(a))


def npf_argwhere(a):
    return np.argwhere(_tobool(a))


def _cmpkey(f):
    def g(a, b):
        if builtins.bool(core.s_lt(f(a), f(b))):
            return -1
        return 1 if builtins.bool(core.s_lt(f(b), f(a))) else 0
    return functools.cmp_to_key(g)


def _nanlast(e):
    return e


def _sorted(items):
    nans = [e for e in items if core.is_nonfinite(e) and math.isnan(e)]
    rest = [e for e in items if not (core.is_nonfinite(e) and
                                     math.isnan(e))]
    if any(isinstance(e, str) for e in rest):
        return sorted(rest) + nans
    return sorted(rest, key=_cmpkey(lambda e: e)) + nans


def npf_argsort(a, axis=-1, kind=None, **k):
    raw = to_obj(a)
    if raw.ndim != 1:
        raise Unsupported("argsort nd")
    items = list(enumerate(raw.tolist()))
    if any(isinstance(e, str) for _, e in items):
        items.sort(key=lambda t: t[1])
    else:
        items.sort(key=_cmpkey(lambda t: t[1]))
    return np.array([i for i, _ in items], dtype=np.int64)


def npf_sort(a, axis=-1, **k):
    raw = to_obj(a)
    if raw.ndim != 1:
        raise Unsupported("sort nd")
    return SymArray(to_obj(_sorted(raw.tolist())), getattr(a, "_ld", None))


def _argext(a, better):
    raw = to_obj(a).ravel().tolist()
    if not raw:
        raise ValueError("attempt to get argmax of an empty sequence")
    bi, bv = 0, raw[0]
    for i, e in enumerate(raw[1:], 1):
        if builtins.bool(better(e, bv)):
            bi, bv = i, e
    return bi


def npf_unique(a, return_index=False, return_inverse=False,
               return_counts=False, axis=None, **k):
    if axis is not None:
        raise Unsupported("unique axis")
    raw = to_obj(a).ravel()
    order = to_obj(npf_argsort(raw)).tolist()
    vals, first, counts = [], [], []
    inv = [0] * len(order)
    for i in order:
        e = raw[i]
        if vals and builtins.bool(core.s_eq(e, vals[-1])
                                  if not isinstance(e, str)
                                  else e == vals[-1]):
            counts[-1] += 1
        else:
            vals.append(e)
            first.append(i)
            counts.append(1)
        inv[i] = len(vals) - 1
    out = [SymArray(to_obj(vals), getattr(a, "_ld", None))]
    if return_index:
        out.append(wrap(first, _I))
    if return_inverse:
        out.append(wrap(inv, _I))
    if return_counts:
        out.append(wrap(counts, _I))
    return out[0] if len(out) == 1 else tuple(out)


def npf_concatenate(seq, axis=0, **k):
    seq = list(seq)
    objs = [to_obj(s) for s in seq]
    lds = [getattr(s, "_ld", None) if isinstance(s, SymArray) else
           (s.dtype if isinstance(s, np.ndarray) else None) for s in seq]
    r = np.concatenate(objs, axis=axis)
    ld = None
    full = [l for l, o in zip(lds, objs) if o.size]
    if full and all(l is not None and l == full[0] for l in full):
        ld = full[0]
    return SymArray(r, ld)


def npf_diff(a, n=1, axis=-1, **k):
    raw = to_obj(a)
    if raw.ndim != 1 or n != 1:
        raise Unsupported("diff nd")
    l = raw.tolist()
    return SymArray(to_obj([s_sub(l[i + 1], l[i])
                            for i in range(len(l) - 1)]))


def npf_outer(a, b, **k):
    ra, rb = to_obj(a).ravel(), to_obj(b).ravel()
    return elementwise(s_mul, ra.reshape(-1, 1), rb.reshape(1, -1))


def npf_isin(a, test, **k):
    t = to_obj(list(test) if isinstance(test, (set, frozenset))
               else test).ravel().tolist()

    def f(e):
        r = False
        for s in t:
            r = s_or(r, _eqany(e, s))
        return r
    return elementwise(f, a, ld=_B)


def _eqany(e, s):
    if isinstance(e, Sym) or isinstance(s, Sym):
        return core.s_eq(e, s)
    return builtins.bool(e == s)


def npf_median(a, axis=None, **k):
    l = _sorted(to_obj(a).ravel().tolist())
    n = len(l)
    if n == 0:
        return math.nan
    if n % 2:
        return core.cast(l[n // 2], _F)
    return s_div(s_add(l[n // 2 - 1], l[n // 2]), 2)


def npf_percentile(a, q, axis=None, **k):
    l = _sorted(to_obj(a).ravel().tolist())
    n = len(l)

    def one(p):
        if isinstance(p, Sym):
            raise Unsupported("symbolic percentile")
        pos = (n - 1) * float(p) / 100.0
        lo = int(math.floor(pos))
        hi = min(lo + 1, n - 1)
        w = pos - lo
        return s_add(s_mul(l[lo], 1 - w), s_mul(l[hi], w)) if w else \
            core.cast(l[lo], _F)
    if np.ndim(q) == 0:
        return one(q)
    return SymArray(to_obj([one(p) for p in to_obj(q).tolist()]), _F)


def npf_quantile(a, q, axis=None, **k):
    if np.ndim(q) == 0:
        return npf_percentile(a, q * 100)
    return npf_percentile(a, [x * 100 for x in to_obj(q).tolist()])


def npf_polyval(p, x):
    pl = to_obj(p).tolist()

    def f(e):
        y = 0
        for c in pl:
            y = s_add(s_mul(y, e), c)
        return y
    return elementwise(f, x)


def npf_array_equal(a, b, **k):
    ra, rb = to_obj(a), to_obj(b)
    if ra.shape != rb.shape:
        return False
    return npf_all(elementwise(core.s_eq, ra, rb))


def npf_average(a, axis=None, weights=None, **k):
    if weights is None:
        return npf_mean(a, axis)
    raw = to_obj(a)
    if axis is None and raw.ndim == 1 or (axis == 0 and raw.ndim == 1):
        return s_div(npf_dot(a, weights), npf_sum(weights))
    if raw.ndim == 2:
        ax = axis % 2
        w = to_obj(weights).tolist()
        tot = npf_sum(weights)
        m = raw if ax == 1 else raw.T
        return SymArray(to_obj([s_div(npf_dot(r, w), tot) for r in m]))
    raise Unsupported("average")


def npf_bincount(x, weights=None, minlength=0):
    xs = [operator.index(e) for e in to_obj(x).tolist()]
    n = max([minlength] + [e + 1 for e in xs])
    out = [0] * n
    ws = to_obj(weights).tolist() if weights is not None else None
    for i, e in enumerate(xs):
        out[e] = s_add(out[e], 1 if ws is None else ws[i])
    return SymArray(to_obj(out), _I if ws is None else _F)


def npf_round(a, decimals=0, out=None):
    return elementwise(lambda e: core.s_round(e, decimals), a)


def npf_vstack(seq, **k):
    return SymArray(np.vstack([to_obj(s) for s in seq]))


def npf_hstack(seq, **k):
    return npf_concatenate(seq) if all(
        to_obj(s).ndim == 1 for s in seq) else SymArray(
        np.hstack([to_obj(s) for s in seq]))


def npf_column_stack(seq, **k):
    return SymArray(np.column_stack([to_obj(s) for s in seq]))


def npf_apply_along_axis(f, axis, arr, *a, **k):
    raw = to_obj(arr)
    if raw.ndim == 1:
        return f(SymArray(raw), *a, **k)
    m = raw if axis in (1, -1) else raw.T
    return SymArray(to_obj([f(SymArray(r), *a, **k) for r in m]))


def _isnan(e):
    return core.is_nonfinite(e) and math.isnan(e)


def _isinf(e):
    return core.is_nonfinite(e) and math.isinf(e)


def _isfinite(e):
    if isinstance(e, Sym):
        return True
    return math.isfinite(e)


def _numcheck(f):
    def g(e):
        if isinstance(e, str):
            raise TypeError("ufunc not supported for the input types")
        return f(e)
    return g


UFUNCS = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "divide": s_div,
    "true_divide": s_div, "floor_divide": core.s_floordiv,
    "remainder": core.s_mod, "mod": core.s_mod, "power": core.s_pow,
    "float_power": core.s_pow,
    "negative": core.s_neg, "positive": lambda a: a,
    "absolute": core.s_abs, "abs": core.s_abs, "fabs": core.s_abs,
    "equal": core.s_eq, "not_equal": core.s_ne, "less": core.s_lt,
    "less_equal": core.s_le, "greater": core.s_gt,
    "greater_equal": core.s_ge,
    "logical_and": lambda a, b: s_and(_tob(a), _tob(b)),
    "logical_or": lambda a, b: s_or(_tob(a), _tob(b)),
    "logical_not": lambda a: core.s_not(_tob(a)),
    "logical_xor": lambda a, b: core.s_xor(_tob(a), _tob(b)),
    "bitwise_and": s_and, "bitwise_or": s_or, "bitwise_xor": core.s_xor,
    "invert": core.s_invert, "bitwise_not": core.s_invert,
    "log": core.s_log, "exp": core.s_exp, "sqrt": core.s_sqrt,
    "log2": lambda a: s_div(core.s_log(a), math.log(2)),
    "log10": lambda a: s_div(core.s_log(a), math.log(10)),
    "log1p": lambda a: core.s_log(s_add(1, a)),
    "expm1": lambda a: s_sub(core.s_exp(a), 1),
    "square": lambda a: s_mul(a, a),
    "reciprocal": lambda a: s_div(1, a),
    "floor": lambda a: core.cast(core.s_floor(a), _F),
    "ceil": lambda a: core.cast(core.s_ceil(a), _F),
    "rint": lambda a: core.s_round(a, 0),
    "trunc": lambda a: core.cast(core.sym_int(a), _F),
    "sign": core.s_sign,
    "maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min,
    "isnan": _numcheck(_isnan), "isinf": _numcheck(_isinf),
    "isfinite": _numcheck(_isfinite),
}
_BOOL_UF = {"equal", "not_equal", "less", "less_equal", "greater",
            "greater_equal", "logical_and", "logical_or", "logical_not",
            "logical_xor", "isnan", "isinf", "isfinite"}
_FLOAT_UF = {"divide", "true_divide", "log", "exp", "sqrt", "floor", "ceil",
             "rint", "log2", "log10", "log1p", "expm1"}


def _tob(a):
    return a if _isb(a) else core.s_ne(a, 0)


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    f = UFUNCS.get(name)
    if f is None:
        raise Unsupported("ufunc {}".format(name))
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    ins = [i.values if isinstance(i, SymSeries) else i for i in inputs]
    if method == "__call__":
        r = elementwise(f, *ins, ld=_B if name in _BOOL_UF else (
            _F if name in _FLOAT_UF else None))
        if where is not True:
            base = out[0] if out else np.zeros_like(to_obj(r))
            r = elementwise(s_ite, where, r, base)
    elif method == "reduce":
        axis = kw.get("axis", 0)
        a = ins[0]
        if name == "add":
            r = npf_sum(a, axis=axis)
        elif name in ("maximum", "minimum", "multiply"):
            r = _reduce(a, f, 1 if name == "multiply" else None, axis)
        elif name == "logical_or":
            r = npf_any(a, axis)
        elif name == "logical_and":
            r = npf_all(a, axis)
        else:
            raise Unsupported("reduce " + name)
    elif method == "accumulate":
        raw = to_obj(ins[0])
        if raw.ndim != 1:
            raise Unsupported("accumulate nd")
        l = raw.tolist()
        o = []
        for e in l:
            o.append(_num(e) if not o else f(o[-1], _num(e)))
        r = SymArray(to_obj(o))
    elif method == "outer":
        ra, rb = to_obj(ins[0]).ravel(), to_obj(ins[1]).ravel()
        r = elementwise(f, ra.reshape(-1, 1), rb.reshape(1, -1))
    elif method == "at":
        tgt, idx = ins[0], ins[1]
        val = ins[2] if len(ins) > 2 else None
        il = to_obj(idx).ravel().tolist()
        vl = np.broadcast_to(to_obj(val), (len(il),)).tolist()
        for i, v in zip(il, vl):
            tgt[i] = f(tgt[i], v)
        return None
    else:
        raise Unsupported("ufunc method " + method)
    if out:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = r
        return o
    return r


def _isnan(e):
    return core.is_nonfinite(e) and math.isnan(e)


def _nanred(f):
    def g(a, b):
        if _isnan(a):
            return b
        return a if _isnan(b) else f(a, b)
    return lambda a, axis=None, **k: _reduce(
        SymArray(_map(_num, to_obj(a))), g, None, axis)


def npf_nanmean(a, axis=None, **k):
    raw = to_obj(a)
    if axis is not None:
        raise Unsupported("nanmean axis")
    n = sum(1 for e in raw.ravel().tolist() if not _isnan(e))
    return s_div(npf_nansum(a), n) if n else math.nan


def npf_polyfit(x, y, deg, **k):
    """least squares line (deg=1), exact over the reals"""
    if not core.has_sym([x, y]):
        return _rewrap(np.polyfit(*_deep_conc([x, y]), deg, **k))
    if deg != 1 or k:
        raise Unsupported("polyfit")
    x, y = wrap(x)._raw().tolist(), wrap(y)._raw().tolist()
    n = len(x)
    if n == 0:
        raise TypeError("expected non-empty vector for x")
    xm = s_div(functools.reduce(s_add, x), n)
    ym = s_div(functools.reduce(s_add, y), n)
    num = functools.reduce(s_add, [s_mul(s_sub(a, xm), s_sub(b, ym))
                                   for a, b in zip(x, y)])
    den = functools.reduce(s_add, [s_mul(s_sub(a, xm), s_sub(a, xm))
                                   for a in x])
    sl = s_div(num, den)
    return SymArray(to_obj([sl, s_sub(ym, s_mul(sl, xm))]), _F)


class _Linalg:
    """numpy.linalg: exact determinants of small symbolic matrices"""
    @staticmethod
    def det(a):
        if not core.has_sym([a]):
            return np.linalg.det(_deep_conc([a])[0])
        m = to_obj(a).tolist()

        def d(m):
            if len(m) == 1:
                return m[0][0]
            t = 0
            for j in range(len(m)):
                r = s_mul(m[0][j], d([q[:j] + q[j + 1:] for q in m[1:]]))
                t = s_sub(t, r) if j % 2 else s_add(t, r)
            return t
        return d(m)

    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            if core.has_sym(list(a)):
                raise Unsupported("numpy.linalg." + n)
            return _rewrap(real(*_deep_conc(list(a)), **_deep_conc(k)))
        return f


FUNCS = {
    "polyfit": npf_polyfit,
    "nanmax": _nanred(s_max), "nanmin": _nanred(s_min),
    "sum": npf_sum, "nansum": npf_nansum, "mean": npf_mean,
    "nanmean": npf_nanmean, "std": npf_std, "var": npf_var,
    "any": npf_any, "all": npf_all, "cumsum": npf_cumsum, "dot": npf_dot,
    "vdot": npf_dot, "inner": npf_dot, "matmul": npf_dot,
    "clip": npf_clip, "count_nonzero": npf_count_nonzero,
    "digitize": npf_digitize, "searchsorted": npf_searchsorted,
    "where": npf_where, "nonzero": npf_nonzero,
    "flatnonzero": npf_flatnonzero, "argwhere": npf_argwhere,
    "argsort": npf_argsort, "sort": npf_sort, "unique": npf_unique,
    "concatenate": npf_concatenate, "diff": npf_diff, "outer": npf_outer,
    "isin": npf_isin, "in1d": npf_isin, "median": npf_median,
    "percentile": npf_percentile, "quantile": npf_quantile,
    "polyval": npf_polyval, "array_equal": npf_array_equal,
    "average": npf_average, "bincount": npf_bincount, "round": npf_round,
    "around": npf_round, "vstack": npf_vstack, "hstack": npf_hstack,
    "column_stack": npf_column_stack,
    "apply_along_axis": npf_apply_along_axis,
    "max": lambda a, axis=None, **k: _reduce(wrap(a), s_max, None, axis),
    "amax": lambda a, axis=None, **k: _reduce(wrap(a), s_max, None, axis),
    "min": lambda a, axis=None, **k: _reduce(wrap(a), s_min, None, axis),
    "amin": lambda a, axis=None, **k: _reduce(wrap(a), s_min, None, axis),
    "prod": lambda a, axis=None, **k: _reduce(wrap(a), s_mul, 1, axis),
    "argmax": lambda a, axis=None, **k: _argext(a, core.s_gt),
    "argmin": lambda a, axis=None, **k: _argext(a, core.s_lt),
    "ptp": lambda a, axis=None, **k: s_sub(_reduce(wrap(a), s_max, None),
                                           _reduce(wrap(a), s_min, None)),
    "isclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: elementwise(
        lambda x, y: core.s_le(core.s_abs(s_sub(x, y)), s_add(
            atol, s_mul(rtol, core.s_abs(y)))), a, b),
    "allclose": lambda a, b, rtol=1e-5, atol=1e-8, **k: npf_all(
        FUNCS["isclose"](a, b, rtol, atol)),
    "interp": None,
}
FUNCS = {k: v for k, v in FUNCS.items() if v is not None}

STRUCTURAL = {"reshape", "ravel", "transpose", "squeeze", "expand_dims",
              "repeat", "tile", "flip", "roll", "take", "delete", "insert",
              "append", "stack", "split", "array_split", "atleast_1d",
              "atleast_2d", "moveaxis", "swapaxes", "broadcast_to", "copy",
              "shape", "ndim", "size", "diag", "tril", "triu", "compress",
              "flipud", "fliplr", "meshgrid", "ix_", "diagonal",
              "ndim", "full_like", "zeros_like", "ones_like", "empty_like",
              "put", "resize", "rot90", "dstack", "iscomplexobj",
              "may_share_memory", "shares_memory", "array_repr",
              "array_str", "can_cast", "result_type"}


def _deep_raw(v):
    if isinstance(v, SymArray):
        ld = v._ld
        if ld is not None and ld.kind in "bi" and not core.has_sym(v._raw()):
            return v._raw().astype(ld)
        return v._raw()
    if isinstance(v, SymSeries):
        return _deep_raw(v.values)
    if isinstance(v, (list, tuple)):
        return type(v)(_deep_raw(e) for e in v)
    if isinstance(v, dict):
        return {k: _deep_raw(e) for k, e in v.items()}
    return v


def _rewrap(r):
    if isinstance(r, SymArray):
        return r
    if isinstance(r, np.ndarray):
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(_rewrap(e) for e in r)
    if isinstance(r, list):
        return [_rewrap(e) for e in r]
    if isinstance(r, np.generic):
        return r.item()
    return r


def dispatch_function(func, args, kwargs):
    name = func.__name__
    if name in FUNCS:
        return FUNCS[name](*args, **kwargs)
    if name in STRUCTURAL or True:
        a = _deep_raw(args)
        k = _deep_raw(kwargs)
        ld = None
        if name in STRUCTURAL and args and isinstance(args[0], SymArray):
            ld = args[0]._ld
        r = func(*a, **k)
        r = _rewrap(r)
        if ld is not None and isinstance(r, SymArray):
            r._ld = ld
        return r


# --------------------------------------------------------------------------
# builtins used as types
# --------------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)

    def __eq__(cls, o):
        return o is builtins.int or o is cls

    def __hash__(cls):
        return hash(builtins.int)


def _sym_ext(real, f):
    def ext(*a, **k):
        if k or any(not isinstance(v, (Sym, int, float, np.number))
                    for v in a):
            if len(a) == 1 and not k and isinstance(
                    a[0], (list, tuple, np.ndarray)) and core.has_sym(a[0]) \
                    and getattr(a[0], "ndim", 1) == 1:
                return _fold(f, list(a[0]), None)
            return real(*a, **k)
        if len(a) >= 2 and any(isinstance(v, Sym) for v in a):
            return _fold(f, list(a), None)
        return real(*a)
    return ext


sym_min = _sym_ext(builtins.min, s_min)
sym_max = _sym_ext(builtins.max, s_max)


class SymInt(builtins.int, metaclass=_IntMeta):
    def __new__(cls, v=0, *a):
        if isinstance(v, SymArray) and v.size == 1:
            v = v.item()
        if isinstance(v, Sym):
            return core.sym_int(v)
        return builtins.int(v, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)

    def __eq__(cls, o):
        return o is builtins.float or o is cls

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, v=0.0):
        if isinstance(v, SymArray) and v.size == 1:
            v = v.item()
        if isinstance(v, Sym):
            return core.cast(v, _F)
        return builtins.float(v)


# --------------------------------------------------------------------------
# pandas-like series (minimal)
# --------------------------------------------------------------------------
class _SymGroups:
    """Series.groupby over concrete keys"""

    def __init__(self, values, keys):
        ks = to_obj(_deep_conc(keys)).ravel().tolist()
        self.keys = sorted(set(ks))
        self.groups = [SymArray(to_obj(
            [v for v, k in zip(list(values), ks) if k == g]))
            for g in self.keys]

    def mean(self):
        return _SymKeyed(self.keys, [npf_mean(g) for g in self.groups])

    def sum(self):
        return _SymKeyed(self.keys, [npf_sum(g) for g in self.groups])


class _SymKeyed:
    def __init__(self, keys, vals):
        self.keys, self.vals = keys, vals

    @property
    def values(self):
        return SymArray(to_obj(self.vals))

    @property
    def index(self):
        import pandas
        return pandas.Index(self.keys)

    def sort_values(self, ascending=True):
        o = list(npf_argsort(self.values))
        if not ascending:
            o = o[::-1]
        o = [int(i) for i in o]
        return _SymKeyed([self.keys[i] for i in o],
                         [self.vals[i] for i in o])


class SymSeries:
    __array_ufunc__ = None

    def __init__(self, data, **k):
        self.values = wrap(data)

    def isin(self, codes):
        if isinstance(codes, dict):
            codes = list(codes)
        l = []
        for c in (codes if isinstance(codes, (list, tuple, set)) else
                  to_obj(codes).ravel().tolist()):
            l.append(c)

        def f(e):
            r = False
            for c in l:
                if isinstance(c, (np.ndarray, list)):
                    continue
                if _isnan(e) and _isnan(c):
                    return True
                r = s_or(r, _eqany(e, c))
            return r
        return SymSeries(elementwise(f, self.values, ld=_B))

    def __array__(self, *a, **k):
        return self.values._raw()

    def groupby(self, keys, *a, **k):
        if not core.has_sym(self.values):
            return self.__getattr__("groupby")(keys, *a, **k)
        return _SymGroups(self.values, keys)

    def __getattr__(self, n):
        if n.startswith("__") or n == "values":
            raise AttributeError(n)
        if core.has_sym(self.values):
            raise Unsupported("Series." + n + " of symbolic data")
        import pandas
        real = getattr(pandas.Series(_deep_conc([self.values])[0]), n)
        if not callable(real):
            return real
        return lambda *a, **k: real(*_deep_conc(list(a)), **k)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, i):
        return self.values[i]

    @property
    def shape(self):
        return self.values.shape

    @property
    def dtype(self):
        return self.values.dtype

    def to_numpy(self, *a, **k):
        return self.values

    def __and__(self, o): return SymSeries(_arop(s_and, self, o))
    def __rand__(self, o): return SymSeries(_arop(s_and, o, self))
    def __or__(self, o): return SymSeries(_arop(s_or, self, o))
    def __ror__(self, o): return SymSeries(_arop(s_or, o, self))
    def __invert__(self): return SymSeries(~self.values)
    def __eq__(self, o): return SymSeries(self.values == o)
    def __ne__(self, o): return SymSeries(self.values != o)
    __hash__ = None

    def isnull(self):
        return SymSeries(pd_isnull(self.values))
    isna = isnull

    def sum(self):
        return self.values.sum()

    def mean(self):
        return self.values.mean()

    def any(self):
        return self.values.any()

    def all(self):
        return self.values.all()

    def unique(self):
        seen = []
        for e in self.values:
            if not any(_isnan(e) and _isnan(s) or
                       builtins.bool(_eqany(e, s)) for s in seen):
                seen.append(e)
        return SymArray(to_obj(seen))


def pd_isnull(x):
    def f(e):
        return e is None or (not isinstance(e, Sym) and
                             isinstance(e, (float, np.floating)) and
                             math.isnan(e))
    if isinstance(x, SymSeries):
        return SymSeries(pd_isnull(x.values))
    return elementwise(f, x, ld=_B)


# --------------------------------------------------------------------------
# module proxy
# --------------------------------------------------------------------------
class _RProxy:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(np.r_[k])
            elif isinstance(k, np.ndarray) or isinstance(k, (list, tuple)):
                parts.append(k)
            else:
                parts.append([k])
        return npf_concatenate(parts)


class _CProxy:
    def __getitem__(self, key):
        return npf_column_stack(key)


def _create(fill):
    def f(shape, dtype=None, *a, **k):
        dt = _dt(dtype) or _F
        if isinstance(shape, Sym):
            shape = shape.__index__()
        elif isinstance(shape, (tuple, list)):
            shape = tuple(operator.index(s) for s in shape)
        v = {"b": bool(fill), "i": int(fill), "u": int(fill),
             "f": float(fill)}.get(dt.kind, fill if dt.kind != "O" else
                                   (fill or 0))
        if dt.kind in "US":
            v = ""
        a = np.empty(shape, dtype=object)
        a.fill(v)
        return SymArray(a, dt)
    return f


class NumpyProxy:
    def __init__(self):
        self.r_ = _RProxy()
        self.c_ = _CProxy()
        self.nan = np.nan
        self.inf = np.inf
        self._cache = {}

    zeros = staticmethod(_create(0))
    ones = staticmethod(_create(1))
    empty = staticmethod(_create(0))

    @staticmethod
    def full(shape, fill_value, dtype=None, *a, **k):
        if isinstance(shape, Sym):
            shape = shape.__index__()
        dt = _dt(dtype)
        fv = fill_value
        if isinstance(fv, np.ndarray) and fv.ndim:
            raw = np.empty(shape, dtype=object)
            raw[...] = to_obj(fv)
            return SymArray(raw, dt)
        if dt is None:
            dt = {"b": _B, "i": _I, "r": _F}[fv.kind] if isinstance(
                fv, Sym) else np.asarray(fv).dtype
            if dt.kind in "US":
                dt = _O
        raw = np.empty(shape, dtype=object)
        a = SymArray(raw, dt)
        a[...] = fv
        return a

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        w = wrap(a)
        return NumpyProxy.zeros(w.shape, dtype or w.dtype)

    @staticmethod
    def ones_like(a, dtype=None, **k):
        w = wrap(a)
        return NumpyProxy.ones(w.shape, dtype or w.dtype)

    @staticmethod
    def empty_like(a, dtype=None, **k):
        return NumpyProxy.zeros_like(a, dtype)

    @staticmethod
    def full_like(a, v, dtype=None, **k):
        w = wrap(a)
        return NumpyProxy.full(w.shape, v, dtype or w.dtype)

    @staticmethod
    def array(v, dtype=None, copy=True, **k):
        if isinstance(v, SymArray):
            r = v.copy()
        elif isinstance(v, SymSeries):
            r = v.values.copy()
        elif isinstance(v, np.ndarray):
            r = wrap(v.copy())
        elif hasattr(v, "to_numpy") and not isinstance(v, Sym):
            r = wrap(v.to_numpy())
        else:
            if not isinstance(v, (list, tuple)) and \
                    hasattr(v, "__iter__") and not isinstance(
                        v, (str, dict, set, Sym)):
                try:
                    v = list(v)
                except TypeError:
                    pass
            if isinstance(v, (list, tuple)) and len({
                    len(e) if isinstance(e, (list, tuple, np.ndarray))
                    else -1 for e in v}) > 1 and _dt(dtype) != _O:
                raise ValueError("setting an array element with a sequence. "
                                 "The requested array has an inhomogeneous "
                                 "shape")
            r = SymArray(to_obj(v))
            if r.size and all(isinstance(e, str)
                              for e in r._raw().ravel().tolist()):
                r = SymArray(r._raw(), _O if _dt(dtype) == _O
                             else np.asarray(r._raw().tolist()).dtype)
        dt = _dt(dtype)
        if dt is not None and dt != r._ld:
            r = r.astype(dt)
        return r

    @staticmethod
    def asarray(v, dtype=None, **k):
        if isinstance(v, SymArray) and dtype is None:
            return v
        if isinstance(v, SymSeries) and dtype is None:
            return v.values
        return NumpyProxy.array(v, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    @staticmethod
    def arange(*a, **k):
        a = [operator.index(x) if isinstance(x, Sym) else x for x in a]
        dt = _dt(k.pop("dtype", None))
        return wrap(np.arange(*a, dtype=dt, **k))

    @staticmethod
    def linspace(*a, **k):
        if core.has_sym(list(a)):
            lo, hi = a[0], a[1]
            n = a[2] if len(a) > 2 else k.get("num", 50)
            st = s_div(s_sub(hi, lo), n - 1)
            return SymArray(to_obj([s_add(lo, s_mul(st, i))
                                    for i in range(n)]), _F)
        return wrap(np.linspace(*a, **k))

    @staticmethod
    def issubdtype(a, b):
        return np.issubdtype(a, b)

    linalg = _Linalg()

    @staticmethod
    def isscalar(a):
        return isinstance(a, Sym) or np.isscalar(a)

    def __getattr__(self, name):
        if name in ("_cache",):
            raise AttributeError(name)
        c = self._cache
        if name in c:
            return c[name]
        real = getattr(np, name)
        r = _wrap_np(name, real)
        c[name] = r
        return r


def _is_opd(v):
    """pandas object with object columns"""
    m = sys.modules.get("pandas")
    if m is None or not isinstance(v, (m.Series, m.DataFrame)):
        return False
    if isinstance(v, m.Series):
        return v.dtype == object
    return any(t == object for t in v.dtypes)


def _unpd(v):
    if _is_opd(v):
        return wrap(v.to_numpy())
    if isinstance(v, (list, tuple)) and any(_is_opd(e) for e in v):
        return type(v)(_unpd(e) for e in v)
    return v


class _UfuncProxy:
    def __init__(self, real):
        self._real = real
        self.__name__ = real.__name__

    def __call__(self, *args, **kw):
        pdo = [a for a in args if _is_opd(a)]
        if pdo:
            r = dispatch_ufunc(self._real, "__call__",
                               tuple(_unpd(a) for a in args), kw)
            t = pdo[0]
            if isinstance(r, np.ndarray) and r.shape == t.shape:
                r = r._raw() if isinstance(r, SymArray) else r
                return t._constructor(r, index=t.index, **(
                    {"name": t.name} if t.ndim == 1 else
                    {"columns": t.columns}))
            return r
        return dispatch_ufunc(self._real, "__call__", args, kw)

    def reduce(self, *a, **k):
        return dispatch_ufunc(self._real, "reduce", a, k)

    def accumulate(self, *a, **k):
        return dispatch_ufunc(self._real, "accumulate", a, k)

    def outer(self, *a, **k):
        return dispatch_ufunc(self._real, "outer", a, k)

    def at(self, *a, **k):
        return dispatch_ufunc(self._real, "at", a, k)


def _wrap_np(name, real):
    if isinstance(real, np.ufunc):
        if name in UFUNCS or real.__name__ in UFUNCS:
            return _UfuncProxy(real)

        def uf(*a, **k):
            if core.has_sym(list(a)):
                raise Unsupported("ufunc " + name)
            return _rewrap(real(*_deep_conc(a), **_deep_conc(k)))
        uf.__name__ = name
        return uf
    if isinstance(real, type) or not callable(real):
        return real
    if name in FUNCS:
        f = FUNCS[name]

        @functools.wraps(real)
        def g(*a, **k):
            return f(*[_unpd(e) for e in a], **k)
        return g

    @functools.wraps(real)
    def h(*a, **k):
        return _rewrap(real(*_deep_raw(list(a)), **_deep_raw(k)))
    return h


def _deep_conc(v):
    """symbolic containers without symbols -> plain numpy"""
    if isinstance(v, SymArray):
        ld = v._ld
        return np.array(v._raw().tolist(), dtype=ld if ld != _O else object)
    if isinstance(v, SymSeries):
        return _deep_conc(v.values)
    if isinstance(v, (list, tuple)):
        return type(v)(_deep_conc(e) for e in v)
    if isinstance(v, dict):
        return {k: _deep_conc(e) for k, e in v.items()}
    return v


def plain(v):
    return _deep_conc(v)


NP = NumpyProxy()


class PandasProxy:
    """pandas stand-in: Series/isnull are symbolic aware."""
    def __init__(self):
        import pandas
        self._pd = pandas

    def Series(self, data=None, *a, **k):
        if isinstance(data, dict):
            return self._pd.Series(data, *a, **k)
        return SymSeries(data)

    def isnull(self, x):
        if isinstance(x, (np.ndarray, SymSeries, list)):
            return pd_isnull(x)
        return self._pd.isnull(x)

    isna = isnull

    def notnull(self, x):
        return ~pd_isnull(x)

    notna = notnull

    @property
    def DataFrame(self):
        return _SymDataFrame

    def __getattr__(self, name):
        return getattr(self._pd, name)


def _make_df():
    import pandas

    class _DFMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, pandas.DataFrame)

        def __getattr__(cls, n):
            return getattr(pandas.DataFrame, n)

    class SymDataFrame(metaclass=_DFMeta):
        def __new__(cls, data=None, *a, **k):
            if isinstance(data, dict):
                d = {}
                for kk, v in data.items():
                    if isinstance(v, SymSeries):
                        v = v.values
                    if isinstance(v, SymArray):
                        v = v._raw().copy()
                    d[kk] = v
                data = d
            elif isinstance(data, SymArray):
                data = data._raw()
            return pandas.DataFrame(data, *a, **k)
    return SymDataFrame


_SymDataFrame = _make_df()
PD = PandasProxy()
