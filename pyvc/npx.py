"""Exact-real model of the numpy / builtins API used by pytracer.

Arrays are real numpy object arrays holding Sym values, so indexing,
broadcasting, views, subclassing and reductions are numpy's own; only element
arithmetic is replaced."""
import builtins
import functools
import math
import types
from fractions import Fraction

import numpy as _np
import z3

from . import sym
from .sym import (Sym, SBool, Unsupported, PathEnd, lift, mkbool, bterm, ctx, PI_T)


# ----------------------------------------------------------- number types
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return not x.isint()
        return isinstance(x, (builtins.float, _np.floating))

    def __subclasscheck__(cls, c):
        return c in (builtins.float, F64) or (isinstance(c, type) and builtins.issubclass(c, (builtins.float, _np.floating)))


class F64(metaclass=_FloatMeta):
    """float / numpy.float64 : mathematical reals plus inf and nan"""
    def __new__(cls, x=0):
        if isinstance(x, _np.ndarray):
            return x.astype(object) if x.ndim else F64(x.item())
        if isinstance(x, str):
            f = builtins.float(x)
            return f if sym.is_special(f) else Sym(Fraction(x))
        l = lift(x)
        if l is None:
            raise TypeError('float() argument')
        if isinstance(l, Sym) and l.isint():
            return Sym(z3.ToReal(l.t))
        return l


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.isint()
        return isinstance(x, (builtins.int, _np.integer))

    def __subclasscheck__(cls, c):
        return c in (builtins.int, VInt) or (isinstance(c, type) and builtins.issubclass(c, (builtins.int, _np.integer)))


class VInt(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if base is not None:
            return builtins.int(x, base)
        if isinstance(x, Sym):
            return sym.trunc_(x)
        if isinstance(x, SBool):
            return Sym(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
        return builtins.int(x)

    from_bytes = builtins.int.from_bytes


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SBool, _np.bool_))


class VBool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        return builtins.bool(x)


# ---------------------------------------------------------- builtins shims
def v_abs(x):
    if isinstance(x, _np.ndarray):
        return _np.frompyfunc(sym.abs_, 1, 1)(x)
    return sym.abs_(x) if isinstance(x, Sym) else builtins.abs(x)


def _items(a, default_key):
    if len(a) == 1:
        return list(a[0])
    return list(a)


def _anysym(xs):
    return any(isinstance(x, Sym) for x in xs)


def v_min(*a, key=None, default=None):
    xs = _items(a, key)
    if key is None and _anysym(xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.min_(r, x)
        return r
    if key is not None:
        ks = [key(x) for x in xs]
        if _anysym(ks):
            b = 0
            for i in builtins.range(1, len(xs)):
                if ks[i] < ks[b]:
                    b = i
            return xs[b]
        return builtins.min(xs, key=key)
    if not xs and default is not None:
        return default
    return builtins.min(xs)


def v_max(*a, key=None, default=None):
    xs = _items(a, key)
    if key is None and _anysym(xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.max_(r, x)
        return r
    if key is not None:
        ks = [key(x) for x in xs]
        if _anysym(ks):
            b = 0
            for i in builtins.range(1, len(xs)):
                if ks[i] > ks[b]:
                    b = i
            return xs[b]
        return builtins.max(xs, key=key)
    if not xs and default is not None:
        return default
    return builtins.max(xs)


class VRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1
        for x in (self.start, self.stop, self.step):
            if isinstance(x, Sym) and not x.isint() and not (x.isconst() and False):
                raise TypeError("'float' object cannot be interpreted as an integer")
            if isinstance(x, builtins.float):
                raise TypeError("'float' object cannot be interpreted as an integer")

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > 100000:
                raise Unsupported('range too long')

    def __len__(self):
        d = self.stop - self.start
        return builtins.int(d) if self.step == 1 else builtins.len(list(self))

    def __getitem__(self, k):
        return self.start + k * self.step

    def __contains__(self, k):
        return (k >= self.start) & (k < self.stop)


def v_range(*a):
    if any(isinstance(x, (Sym, builtins.float)) for x in a):
        return VRange(*a)
    return builtins.range(*a)


def v_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def v_round(x, n=None):
    if isinstance(x, Sym):
        if n is None:
            return sym.trunc_(sym.rint_(x))
        raise Unsupported('round digits')
    return builtins.round(x) if n is None else builtins.round(x, n)


def v_pow(a, b, m=None):
    return a ** b if m is None else builtins.pow(a, b, m)


def v_print(*a, **k):
    return None


def v_divmod(a, b):
    return a // b, a % b


def vc_lit(s):
    return Sym(Fraction(s))


def vc_div(a, b):
    if isinstance(a, (builtins.int, _np.integer)) and isinstance(b, (builtins.int, _np.integer)):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return Sym(Fraction(builtins.int(a), builtins.int(b)))
    if isinstance(a, _np.ndarray) and a.dtype != object:
        a = a.astype(object)
        a = _np.frompyfunc(lambda x: lift(x), 1, 1)(a)
    if isinstance(b, _np.ndarray) and b.dtype != object:
        b = _np.frompyfunc(lambda x: lift(x), 1, 1)(b.astype(object))
    return a / b


def vc_idiv(a, b):
    if isinstance(a, _np.ndarray):
        a /= b
        return a
    return vc_div(a, b)


def vc_pow(a, b):
    if isinstance(a, (builtins.int, _np.integer)) and isinstance(b, (builtins.int, _np.integer)):
        if b < 0:
            return Sym(Fraction(builtins.int(a)) ** builtins.int(b))
        return a ** b
    if isinstance(b, Sym) and not isinstance(a, _np.ndarray):
        return sym.pow_(lift(a), b)
    return a ** b


# ------------------------------------------------- arrays of unknown extent
class SArr(object):
    """array whose extents are symbolic integers; contents by index function (reads are applications of an uninterpreted
    function constrained, at every index read, by the facts its contract states; writes are if-then-else)"""
    __array_priority__ = 1000

    def __init__(self, shape, get):
        self.shape, self._get = tuple(shape), get

    ndim = property(lambda self: builtins.len(self.shape))
    size = property(lambda self: functools.reduce(lambda a, b: a * b, self.shape))
    dtype = F64

    @classmethod
    def base(cls, name, shape, facts=None, sort='real'):
        """fresh contents; facts(array, index) states what holds of the element at an index, assumed at every read"""
        c = ctx()
        c.fresh_n += 1
        f = z3.Function('%s!%d' % (name, c.fresh_n), *([z3.IntSort()] * builtins.len(shape) + [z3.RealSort() if sort == 'real' else z3.IntSort()]))
        seen = set()

        def get(idx):
            t = f(*[z3.simplify(sym.iterm(i)) for i in idx])
            if facts is not None and t.get_id() not in seen:
                seen.add(t.get_id())
                keep.append(t)
                r = facts(a, [Sym(x) if not z3.is_int_value(x) else x.as_long() for x in t.children()])
                for x in (r if isinstance(r, (list, tuple)) else [r]):
                    b = bterm(x)
                    if not z3.is_true(b):
                        ctx().add_pc(b)
            return Sym(t)
        keep = []
        a = cls(shape, get)         # stays as it is: facts are about the fresh contents
        r = cls(shape, get)
        r.fn = f
        return r

    def _idx(self, k):
        k = k if isinstance(k, tuple) else (k,)
        if builtins.len(k) != builtins.len(self.shape):
            raise Unsupported('partial index of an array of unknown extent')
        out = []
        for i, n in zip(k, self.shape):
            if isinstance(i, slice) or i is None or i is Ellipsis:
                raise Unsupported('slice of an array of unknown extent')
            l = lift(i)
            if isinstance(l, Sym) and not l.isint() and not l.isconst():
                raise IndexError('only integers are valid indices')
            if l.isconst():
                v = builtins.int(l.t)
                if v < 0:
                    l = n + v
            ctx().definedness('index', bterm((l >= 0) & (l < n)))
            out.append(l)
        return tuple(out)

    def at(self, *k):
        """spec-level read"""
        return self._get(tuple(k))

    def __getitem__(self, k):
        if isinstance(k, builtins.int) and k < 0 or isinstance(k, (builtins.int, Sym)) and builtins.len(self.shape) == 1:
            return self._get(self._idx(k))
        kk = k if isinstance(k, tuple) else (k,)
        if builtins.len(kk) < builtins.len(self.shape) or any(isinstance(x, slice) for x in kk):
            kk = kk + (slice(None),) * (builtins.len(self.shape) - builtins.len(kk))
            free = [i for i, x in enumerate(kk) if isinstance(x, slice)]
            if any(kk[i] != slice(None) for i in free):
                raise Unsupported('slice of an array of unknown extent')
            fixed = dict((i, x) for i, x in enumerate(kk) if i not in free)

            def full(idx):
                d = dict(zip(free, idx))
                return tuple(d[i] if i in d else fixed[i] for i in builtins.range(builtins.len(kk)))
            r = SArr([self.shape[i] for i in free], lambda idx: self._get(full(idx)))
            r._set = lambda idx, v: self._put(full(idx), v)
            return r
        return self._get(self._idx(k))

    _set = None

    def _put(self, idx, v):
        if self._set is not None:
            self._set(idx, v)
            return
        old = self._get

        def get(j):
            c = [sym.iterm(a) == sym.iterm(b) for a, b in zip(idx, j)]
            b = z3.simplify(z3.And(*c) if builtins.len(c) > 1 else c[0])
            if z3.is_true(b):
                return v
            if z3.is_false(b):
                return old(j)
            return sym._ite(mkbool(b), v, old(j))
        self._get = get

    def __setitem__(self, k, v):
        kk = k if isinstance(k, tuple) else (k,)
        rest = self.shape[builtins.len(kk):]
        if rest and builtins.len(rest) == 1 and isinstance(rest[0], builtins.int) and not any(isinstance(x, slice) for x in kk):
            # a whole row of known extent
            if isinstance(v, SArr):
                v = [v.at(j) for j in builtins.range(rest[0])]
            elif _arr(v):
                v = list(_toarr(v))
            else:
                v = [v] * rest[0]
            if builtins.len(v) != rest[0]:
                raise ValueError('could not broadcast')
            for j in builtins.range(rest[0]):
                self._put(self._idx(kk + (j,)), lift(v[j]))
            return
        self._put(self._idx(k), lift(v))

    def copy(self):
        g = self._get
        return SArr(self.shape, g)

    def __vlen__(self):
        return self.shape[0]

    def _map(self, f):
        g = self._get
        return SArr(self.shape, lambda i: f(g(i)))

    def astype(self, dt, copy=True):
        k = _isfloat_dtype(dt)
        if k is True:
            return self._map(lambda x: Sym(z3.ToReal(x.t)) if isinstance(x, Sym) and x.isint() and not x.isconst() else x)
        if k is False:
            return self._map(lambda x: VInt(x))
        raise Unsupported('astype')

    def reshape(self, *a):
        raise Unsupported('reshape of an array of unknown extent')

    def fill(self, v):
        self._get = lambda i: lift(v)

    def __neg__(self): return self._map(lambda x: -x)
    def __mod__(self, o): return self._op2(o, lambda x, y: x % y)
    def __floordiv__(self, o): return self._op2(o, lambda x, y: x // y)

    def _op2(self, o, f):
        if isinstance(o, SArr):
            g = o._get
            if builtins.len(o.shape) != builtins.len(self.shape):
                raise Unsupported('broadcast of arrays of unknown extent')
            for a, b in zip(self.shape, o.shape):
                ctx().definedness('shapes agree', bterm(lift(a) == b))
            return SArr(self.shape, lambda i, s=self._get: f(s(i), g(i)))
        if _arr(o):
            o = _toarr(o)
            if builtins.len(self.shape) == 1 and o.shape == self.shape:
                return SArr(self.shape, lambda i, s=self._get: f(s(i), _pick(o, i[0])))
            if builtins.len(self.shape) == 2 and o.shape == (self.shape[1],):
                return SArr(self.shape, lambda i, s=self._get: f(s(i), _pick(o, i[1])))
            raise Unsupported('array of unknown extent with a literal array')
        return self._map(lambda x: f(x, o))

    def __add__(self, o): return self._op2(o, lambda x, y: x + y)
    def __sub__(self, o): return self._op2(o, lambda x, y: x - y)
    def __mul__(self, o): return self._op2(o, lambda x, y: x * y)
    def __truediv__(self, o): return self._op2(o, lambda x, y: x / y)
    def __radd__(self, o): return self._op2(o, lambda x, y: y + x)
    def __rsub__(self, o): return self._op2(o, lambda x, y: y - x)
    def __rmul__(self, o): return self._op2(o, lambda x, y: y * x)
    def __rtruediv__(self, o): return self._op2(o, lambda x, y: y / x)

    def _inpl(self, r):
        self._get = r._get
        return self
    def __iadd__(self, o): return self._inpl(self + o)
    def __isub__(self, o): return self._inpl(self - o)
    def __imul__(self, o): return self._inpl(self * o)
    def __itruediv__(self, o): return self._inpl(self / o)

    def __iter__(self):
        raise Unsupported('iteration over an array of unknown extent')

    def __bool__(self):
        raise Unsupported('truth of an array')

    def searchsorted(self, v, side='left'):
        return np_searchsorted(self, v, side)


def _pick(o, k):
    k = lift(k)
    if k.isconst():
        return o[builtins.int(k.t)]
    r = o[-1]
    for j in builtins.range(builtins.len(o) - 1):
        r = sym._ite(k == j, o[j], r)
    return r


def v_len(x):
    f = getattr(type(x), '__vlen__', None)
    return f(x) if f is not None else builtins.len(x)


# --------------------------------------------------------------- numpy
def _arr(x):
    return isinstance(x, (_np.ndarray, list, tuple))


def _toarr(x):
    if isinstance(x, _np.ndarray):
        return x
    return np_array(x)


def ew1(f):
    uf = _np.frompyfunc(f, 1, 1)

    def g(x, *a, **k):
        k.pop('dtype', None)
        if a or k:
            raise Unsupported('ufunc out/where')
        if isinstance(x, SArr):
            return x._map(f)
        if _arr(x):
            return uf(_toarr(x))
        return f(x)
    return g


def ew2(f):
    uf = _np.frompyfunc(f, 2, 1)

    def g(x, y, *a, **k):
        k.pop('dtype', None)
        if a or k:
            raise Unsupported('ufunc out/where')
        if isinstance(x, SArr):
            return x._op2(y, f)
        if isinstance(y, SArr):
            return y._op2(x, lambda b, a: f(a, b))
        if _arr(x) or _arr(y):
            return uf(_toarr(x) if _arr(x) else x, _toarr(y) if _arr(y) else y)
        return f(x, y)
    return g


def _fix(a, want_float):
    """normalise the elements of an object/number array"""
    if a.dtype.kind == 'b' or a.dtype.kind in 'SU':
        return a
    flat = a.reshape(-1) if a.size else a
    if not want_float:
        want_float = a.dtype.kind == 'f' or any(isinstance(x, Sym) and not x.isint() or isinstance(x, builtins.float) for x in flat)
    if want_float:
        o = _np.empty(a.shape, dtype=object)
        of = o.reshape(-1)
        for i, x in enumerate(flat):
            l = lift(x)
            if isinstance(l, Sym) and l.isint():
                l = Sym(z3.ToReal(l.t))
            of[i] = x if l is None else l
        return o
    if a.dtype != object:
        return a.astype(object) if a.dtype.kind in 'iu' and False else a
    return a


def _isfloat_dtype(dt):
    if dt is None:
        return None
    if dt in (F64, builtins.float, 'float', 'float64', 'f', 'f8', _np.float64, _np.float32):
        return True
    if dt in (VInt, builtins.int, _np.uint32, 'int', 'uint8', _np.uint8, _np.int64, _np.int32, _np.intp):
        return False
    if dt in (builtins.bool, VBool, 'bool', _np.bool_):
        return 'bool'
    return 'other'


def np_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    fl = _isfloat_dtype(dtype)
    if isinstance(x, VRange):
        x = list(x)
    if isinstance(x, _np.ndarray):
        a = _np.array(x, subok=subok, ndmin=ndmin)
        if a.dtype.kind == 'f' or fl is True:
            b = _fix(a, True)
            return b.view(type(a)) if subok else b
        return a
    has = _contains_obj(x)
    if has:
        a = _np.array(x, dtype=object, ndmin=ndmin)
    else:
        a = _np.array(x, ndmin=ndmin)
    if fl == 'bool':
        return a.astype(builtins.bool)
    if fl == 'other':
        return a.astype(object)
    if a.dtype == object and not any(isinstance(lift(e), (Sym, builtins.float)) for e in a.reshape(-1)):
        return a
    return _fix(a, fl is True)


def _contains_obj(x):
    if isinstance(x, (list, tuple)):
        return any(_contains_obj(e) for e in x)
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    return not isinstance(x, (builtins.int, builtins.float, builtins.bool, str, _np.generic)) or isinstance(x, (Sym, SBool))


def np_asarray(x, dtype=None, order=None):
    if isinstance(x, _np.ndarray):
        fl = _isfloat_dtype(dtype)
        b = x.view(_np.ndarray)
        if b.dtype.kind == 'f' or (fl is True and b.dtype != object):
            return _fix(b, True)
        return b
    return np_array(x, dtype)


def _filled(v_float, v_int):
    def f(shape, dtype=None, order='C'):
        fl = _isfloat_dtype(dtype)
        if _symshape(shape):
            return SArr(_symshape(shape), lambda i: Sym(Fraction(v_float)) if fl is not False else v_int)
        if fl == 'bool':
            return _np.full(_shape(shape), builtins.bool(v_int), dtype=builtins.bool)
        a = _np.empty(_shape(shape), dtype=object)
        if fl is False:
            a[...] = v_int
        elif fl == 'other':
            a[...] = v_int
        else:
            a[...] = Sym(Fraction(v_float))
        return a
    return f


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(builtins.int(x) for x in s)
    return builtins.int(s) if not isinstance(s, Sym) else s.__index__()


def _symshape(s):
    s = tuple(s) if isinstance(s, (tuple, list)) else (s,)
    return s if any(isinstance(x, Sym) and not x.isconst() for x in s) else None


def np_empty(shape, dtype=None, order='C'):
    if _symshape(shape):
        return SArr.base('empty', _symshape(shape))
    a = _np.empty(_shape(shape), dtype=object)
    return a


def np_full(shape, v, dtype=None, order='C'):
    a = _np.empty(_shape(shape), dtype=object)
    if isinstance(v, (builtins.list, builtins.tuple)):
        v = np_array(v, dtype)
    if isinstance(v, _np.ndarray):
        a[...] = v
    else:
        f = a.reshape(-1)
        for i in builtins.range(a.size):
            f[i] = lift(v) if isinstance(v, builtins.float) or _isfloat_dtype(dtype) is True else v
    return a


def _like(fn):
    def f(a, dtype=None, **k):
        return fn(_np.shape(a), dtype)
    return f


def np_eye(n, m=None, k=0, dtype=None, order='C'):
    a = _filled(0, 0)((n, m or n))
    for i in builtins.range(n):
        if 0 <= i + k < (m or n):
            a[i, i + k] = Sym(Fraction(1))
    return a


def np_array_equal(a, b):
    a, b = _toarr(a), _toarr(b)
    if a.shape != b.shape:
        return False
    c = [x == y for x, y in zip(a.reshape(-1), b.reshape(-1))]
    return _all(c)


def _all(c):
    out = []
    for x in c:
        if isinstance(x, SBool):
            out.append(x.t)
        elif not x:
            return False
    return mkbool(z3.And(*out)) if out else True


def _any(c):
    out = []
    for x in c:
        if isinstance(x, SBool):
            out.append(x.t)
        elif x:
            return True
    return mkbool(z3.Or(*out)) if out else False


def np_all(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('all axis')
    return _all([x if isinstance(x, (SBool, builtins.bool)) else x != 0 for x in _toarr(a).reshape(-1)])


def np_any(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('any axis')
    return _any([x if isinstance(x, (SBool, builtins.bool)) else x != 0 for x in _toarr(a).reshape(-1)])


def _isclose1(a, b, rtol, atol):
    if sym.is_special(a) or sym.is_special(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        return a == b
    return sym.abs_(lift(a) - b) <= lift(atol) + lift(rtol) * sym.abs_(lift(b))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if _arr(a) or _arr(b):
        return _np.frompyfunc(lambda x, y: _isclose1(x, y, rtol, atol), 2, 1)(_toarr(a), _toarr(b) if _arr(b) else b)
    return _isclose1(a, b, rtol, atol)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np_isclose(a, b, rtol, atol)
    return np_all(r) if isinstance(r, _np.ndarray) else r


def np_clip(x, lo, hi, out=None):
    f = lambda v, l, h: sym.min_(sym.max_(v, l), h)
    if _arr(x) or _arr(lo) or _arr(hi):
        return _np.frompyfunc(f, 3, 1)(_toarr(x), lo, hi)
    return f(x if isinstance(x, (Sym, builtins.float)) else x, lo, hi)


def np_where(c, a=None, b=None):
    if a is None:
        return _np.where(c)
    f = lambda c, x, y: sym._ite(c, x, y)
    if _arr(c) or _arr(a) or _arr(b):
        return _np.frompyfunc(f, 3, 1)(_toarr(c) if _arr(c) else c, _toarr(a) if _arr(a) else a, _toarr(b) if _arr(b) else b)
    return f(c, a, b)


def _isnan(x):
    if isinstance(x, (Sym, SBool)):
        return False
    return sym.isnan_(x) if isinstance(x, builtins.float) else builtins.bool(_np.isnan(x))


def _isinf(x):
    if isinstance(x, (Sym, SBool)):
        return False
    return builtins.bool(_np.isinf(x))


def _sign(x):
    if isinstance(x, Sym):
        if x.isconst():
            return Sym(Fraction((x.t > 0) - (x.t < 0)))
        return Sym(z3.If(x.r() > 0, z3.RealVal(1), z3.If(x.r() < 0, z3.RealVal(-1), z3.RealVal(0))))
    return _np.sign(x)


def _div1(a, b):
    la = lift(a)
    if isinstance(la, builtins.float) or isinstance(lift(b), builtins.float):
        return sym._sp_arith('/', la, lift(b))
    return la / b


def np_linspace(a, b, num=50, endpoint=True, dtype=None):
    num = builtins.int(num)
    o = _np.empty(num, dtype=object)
    d = (num - 1) if endpoint else num
    for i in builtins.range(num):
        o[i] = lift(a) + (lift(b) - a) * Sym(Fraction(i, d)) if d else lift(a)
    return o


def np_arange(*a, dtype=None):
    if all(isinstance(x, (builtins.int, _np.integer)) for x in a):
        r = _np.arange(*a).astype(object)
        r = _np.array([builtins.int(x) for x in r], dtype=object)
        if _isfloat_dtype(dtype) is True:
            return _fix(r, True)
        return r
    if all(isinstance(lift(x), Sym) and (lift(x).isint() or lift(x).isconst() and isinstance(x, builtins.int)) for x in a) and builtins.len(a) <= 2:
        lo, hi = (0, a[0]) if builtins.len(a) == 1 else a
        n = lift(hi) - lo
        if isinstance(n, Sym) and n.isconst():
            return SArr((builtins.int(n.t),), lambda i: lift(i[0]) + lo)
        return SArr((sym._ite(n > 0, n, lift(0)),), lambda i: lift(i[0]) + lo)
    raise Unsupported('arange of symbolic/float')


def np_tile(a, n):
    if isinstance(a, SArr) or isinstance(n, Sym):
        if not isinstance(a, SArr):
            raise Unsupported('tile')
        g, m = a._get, a.shape[0]
        return SArr((m * n,), lambda i: g((i[0] % m,)))
    return _np.tile(a, n)


def np_repeat(a, n, axis=None):
    if isinstance(a, SArr) or isinstance(n, Sym):
        if not isinstance(a, SArr) or axis is not None:
            raise Unsupported('repeat')
        g, m = a._get, a.shape[0]
        return SArr((m * n,), lambda i: g((i[0] // n,)))
    return _np.repeat(a, n, axis)


def np_column_stack(t):
    t = list(t)
    if any(isinstance(x, SArr) for x in t):
        if not all(isinstance(x, SArr) and builtins.len(x.shape) == 1 for x in t):
            raise Unsupported('column_stack')
        n = t[0].shape[0]
        for x in t[1:]:
            ctx().definedness('shapes agree', bterm(lift(n) == x.shape[0]))
        gs = [x._get for x in t]

        def get(i):
            j = lift(i[1])
            if j.isconst():
                return gs[builtins.int(j.t)]((i[0],))
            r = gs[-1]((i[0],))
            for q in builtins.range(builtins.len(gs) - 1):
                r = sym._ite(j == q, gs[q]((i[0],)), r)
            return r
        return SArr((n, builtins.len(t)), get)
    return _np.column_stack([_toarr(x) for x in t])


def np_inv(m):
    m = _toarr(m)
    n = m.shape[0]
    if all(isinstance(lift(x), Sym) and lift(x).isconst() for x in m.reshape(-1)):
        A = [[lift(x).t for x in r] for r in m]
        I = [[Fraction(builtins.int(i == j)) for j in builtins.range(n)] for i in builtins.range(n)]
        for c in builtins.range(n):
            p = next((r for r in builtins.range(c, n) if A[r][c] != 0), None)
            if p is None:
                raise _np.linalg.LinAlgError('Singular matrix')
            A[c], A[p] = A[p], A[c]
            I[c], I[p] = I[p], I[c]
            k = A[c][c]
            A[c] = [x / k for x in A[c]]
            I[c] = [x / k for x in I[c]]
            for r in builtins.range(n):
                if r != c and A[r][c] != 0:
                    f = A[r][c]
                    A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                    I[r] = [x - f * y for x, y in zip(I[r], I[c])]
        return np_array([[Sym(x) for x in r] for r in I])
    # contract of the external function: M X = X M = I, or LinAlgError
    c = ctx()
    c.assumptions.add('numpy.linalg.inv(M) returns X with M.X = X.M = I when det M != 0')
    hook = getattr(c, 'inv_hook', None)
    if hook is not None:
        r = hook(m)
        if r is not None:
            return r
    d = det(m)
    if d == 0:
        raise _np.linalg.LinAlgError('Singular matrix')
    return adjugate(m, d)


def det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    if n == 2:
        return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
    r = 0
    for j in builtins.range(n):
        if isinstance(m[0, j], Sym) and m[0, j].isconst() and m[0, j].t == 0:
            continue
        mi = _np.delete(_np.delete(m, 0, 0), j, 1)
        t = m[0, j] * det(mi)
        r = r + t if j % 2 == 0 else r - t
    return r


def adjugate(m, d):
    n = m.shape[0]
    o = _np.empty((n, n), dtype=object)
    for i in builtins.range(n):
        for j in builtins.range(n):
            mi = _np.delete(_np.delete(m, j, 0), i, 1)
            c = det(mi)
            o[i, j] = (c if (i + j) % 2 == 0 else -c) / d
    return o


def np_solve(A, b):
    A, b = _toarr(A), _toarr(b)
    if A.shape == (2, 2):
        d = det(A)
        if d == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        o = _np.empty(2, dtype=object)
        o[0] = (b[0] * A[1, 1] - A[0, 1] * b[1]) / d
        o[1] = (A[0, 0] * b[1] - b[0] * A[1, 0]) / d
        return o
    return _np.dot(np_inv(A), b)


def np_norm(x, *a, **k):
    return sym.sqrt_(v_sum([e * e for e in _toarr(x).reshape(-1)]))


class _LinAlg:
    inv = staticmethod(np_inv)
    solve = staticmethod(np_solve)
    norm = staticmethod(np_norm)
    det = staticmethod(lambda m: det(_toarr(m)))
    LinAlgError = _np.linalg.LinAlgError
    matrix_rank = staticmethod(lambda m: (_ for _ in ()).throw(Unsupported('matrix_rank')))

    class linalg:
        LinAlgError = _np.linalg.LinAlgError


class _Random:
    """contract of numpy.random: values in the documented half-open ranges"""
    @staticmethod
    def _u(lo, hi):
        v = ctx().fresh('rnd')
        ctx().assume_t(z3.And(v.t >= 0, v.t < 1))
        c = ctx()
        if not hasattr(c, 'rnd'):
            c.rnd = []
        c.rnd.append(v)
        if lift(lo).isconst() and lift(lo).t == 0 and lift(hi).isconst() and lift(hi).t == 1:
            return v
        return lo + v * (lift(hi) - lo)

    def rand(self, *shape):
        if not shape:
            return self._u(0, 1)
        if any(isinstance(x, Sym) and not x.isconst() for x in shape):
            return SArr.base('rand', shape, lambda a, i: [a.at(*i) >= 0, a.at(*i) < 1])
        a = _np.empty(tuple(builtins.int(s) for s in shape), dtype=object)
        f = a.reshape(-1)
        for i in builtins.range(a.size):
            f[i] = self._u(0, 1)
        return a

    def random_sample(self, size=None):
        return self.rand() if size is None else self.rand(*(size if isinstance(size, tuple) else (size,)))
    random = random_sample

    def uniform(self, lo=0, hi=1, size=None):
        if size is None:
            return self._u(lo, hi)
        a = _np.empty(_shape(size), dtype=object)
        f = a.reshape(-1)
        for i in builtins.range(a.size):
            f[i] = self._u(lo, hi)
        return a

    def randint(self, lo, hi=None, size=None, dtype=None):
        if hi is None:
            lo, hi = 0, lo
        if size is not None:
            a = _np.empty(_shape(size), dtype=object)
            f = a.reshape(-1)
            for i in builtins.range(a.size):
                f[i] = self.randint(lo, hi)
            return a
        v = ctx().fresh('rndi', 'int')
        zi = lambda x: x.t if isinstance(x, Sym) and x.isint() else z3.IntVal(builtins.int(x))
        ctx().assume_t(z3.And(v.t >= zi(lo), v.t < zi(hi)))
        return v

    def permutation(self, n):
        if isinstance(n, _np.ndarray):
            n = n.copy()
            self.shuffle(n)
            return n
        a = np_arange(n)
        self.shuffle(a)
        return a

    def shuffle(self, a):
        """contract: rearranges in place by some permutation (all explored)"""
        if isinstance(a, SArr):
            c = ctx()
            c.fresh_n += 1
            n = a.shape[0]
            pf, qf = (z3.Function('%s!%d' % (x, c.fresh_n), z3.IntSort(), z3.IntSort()) for x in ('perm', 'inv'))
            N, old = sym.iterm(n), a._get

            def one(f, g, k):
                t, r = sym.iterm(k), f(sym.iterm(k))
                ok = z3.And(t >= 0, t < N)
                ctx().add_pc(z3.Implies(ok, z3.And(r >= 0, r < N, g(r) == t)))
                return Sym(r)
            a.perm, a.inv = (lambda k: one(pf, qf, k)), (lambda k: one(qf, pf, k))
            c.shuffles = getattr(c, 'shuffles', []) + [a]
            a._get = lambda i: old((a.perm(i[0]),) + tuple(i[1:]))
            return
        n = len(a)
        idx = list(builtins.range(n))
        for i in builtins.range(n - 1, 0, -1):
            k = ctx().choose(i + 1, 'shuf')
            idx[i], idx[k] = idx[k], idx[i]
        if isinstance(a, _np.ndarray):
            b = a.copy()
            for i in builtins.range(n):
                a[i] = b[idx[i]]
        else:
            b = list(a)
            for i in builtins.range(n):
                a[i] = b[idx[i]]

    def seed(self, *a):
        return None


def np_frompyfunc(f, nin, nout):
    return _np.frompyfunc(f, nin, nout)


def np_vectorize(f, *a, **k):
    n = f.__code__.co_argcount
    return _np.frompyfunc(f, n, 1)


def np_errstate(**k):
    import contextlib
    return contextlib.nullcontext()


def np_max(a, axis=None, **k):
    if axis is None and _arr(a):
        return v_max(list(_toarr(a).reshape(-1)))
    return _np.max(a, axis=axis)


def np_min(a, axis=None, **k):
    if axis is None and _arr(a):
        return v_min(list(_toarr(a).reshape(-1)))
    return _np.min(a, axis=axis)


def np_searchsorted(a, v, side='left', sorter=None):
    if isinstance(a, SArr):
        # contract on a sorted array (that it is sorted follows from the facts of the array)
        i, n = ctx().fresh('pos', 'int'), a.shape[0]
        ctx().add_pc(bterm((i >= 0) & (i <= n)))
        lo, hi = a.at(i - 1), a.at(i)
        ctx().add_pc(z3.Implies(bterm(i > 0), bterm((lo < v) if side == 'left' else (lo <= v))))
        ctx().add_pc(z3.Implies(bterm(i < n), bterm((hi >= v) if side == 'left' else (hi > v))))
        return i
    """contract (numpy docs): first i with a[i-1] < v <= a[i] ('left'), a[i-1] <= v < a[i] ('right')"""
    xs = list(_toarr(a).reshape(-1)) if not isinstance(a, list) else a
    if _arr(v):
        o = _np.empty(len(v), dtype=object)
        for i, e in enumerate(v):
            o[i] = np_searchsorted(a, e, side)
        return o
    lo, hi = 0, len(xs)
    while lo < hi:
        mid = (lo + hi) // 2
        if (xs[mid] < v) if side == 'left' else (xs[mid] <= v):
            lo = mid + 1
        else:
            hi = mid
    return lo


def np_argsort(a, axis=-1, kind=None, order=None):
    xs = list(_toarr(a).reshape(-1))
    idx = []
    for i, x in enumerate(xs):
        k = builtins.len(idx)
        while k > 0 and x < xs[idx[k - 1]]:
            k -= 1
        idx.insert(k, i)
    return _np.array(idx, dtype=int)


def np_sort(a, axis=-1, kind=None, order=None):
    a = _toarr(a)
    if a.ndim != 1:
        raise Unsupported('sort of a matrix')
    return a[np_argsort(a)]


def np_trapz(y, x=None, dx=1.0, axis=-1):
    ys = list(_toarr(y).reshape(-1))
    xs = list(_toarr(x).reshape(-1)) if x is not None else None
    r = Sym(Fraction(0))
    for i in builtins.range(builtins.len(ys) - 1):
        d = (xs[i + 1] - xs[i]) if xs is not None else lift(dx)
        r = r + d * (ys[i + 1] + ys[i]) / 2
    return r


def np_shape(a):
    if isinstance(a, SArr):
        return a.shape
    return _np.shape(a) if isinstance(a, _np.ndarray) or not isinstance(a, (Sym,)) else ()


def np_isscalar(x):
    return isinstance(x, (Sym, SBool)) or _np.isscalar(x)


def np_round(x, n=0, out=None):
    if n:
        raise Unsupported('round digits')
    return ew1(sym.rint_)(x)


def np_interp(x, xp, fp):
    raise Unsupported('np.interp')


def np_mean(a, axis=None, **k):
    a = _toarr(a)
    n = a.size if axis is None else a.shape[axis]
    return vc_div(_np.sum(a, axis=axis), n)


def np_float_power(a, b):
    return vc_pow(a, b)


def np_nan_to_num(x, *a, **k):
    def f(v):
        if isinstance(v, builtins.float):
            return Sym(Fraction(0)) if math.isnan(v) else Sym(Fraction(builtins.float(_np.nan_to_num(v))))
        return v
    return ew1(f)(x)


def _sinc(x):
    x = lift(x)
    return sym._ite(x == 0, lift(1), sym.sin_(x * Sym(PI_T)) / sym._ite(x == 0, lift(1), x * Sym(PI_T)))


def _argbest(less):
    def f(a, axis=None):
        if axis is not None:
            raise Unsupported('argmin along an axis')
        a = list(_toarr(a).reshape(-1)) if _arr(a) else a
        if not isinstance(a, list):
            raise Unsupported('argmin of an array of unknown extent')
        best = 0
        for i in builtins.range(1, builtins.len(a)):
            if less(lift(a[i]), lift(a[best])):
                best = i
        return best
    return f


_OVER = dict(
    argmin=_argbest(lambda x, y: x < y), argmax=_argbest(lambda x, y: x > y),
    sinc=ew1(_sinc),
    array=np_array, asarray=np_asarray, asanyarray=lambda x, dtype=None: x if isinstance(x, _np.ndarray) else np_array(x, dtype),
    zeros=_filled(0, 0), ones=_filled(1, 1), empty=np_empty, full=np_full,
    zeros_like=_like(_filled(0, 0)), ones_like=_like(_filled(1, 1)), empty_like=_like(np_empty),
    eye=np_eye, identity=np_eye,
    sqrt=ew1(sym.sqrt_), sin=ew1(sym.sin_), cos=ew1(sym.cos_), tan=ew1(lambda x: sym.sin_(x) / sym.cos_(x)),
    arccos=ew1(sym.acos_), arcsin=ew1(sym.asin_), arctan=ew1(sym.atan_), arctan2=ew2(sym.atan2_),
    exp=ew1(sym.exp_), log=ew1(sym.log_), log2=ew1(sym.log2_),
    power=ew2(lambda a, b: vc_pow(lift(a), b)), float_power=np_float_power,
    fabs=ew1(sym.abs_), abs=ew1(sym.abs_), absolute=ew1(sym.abs_), square=ew1(lambda x: x * x),
    floor=ew1(sym.floor_), ceil=ew1(sym.ceil_), rint=ew1(sym.rint_), round=np_round, around=np_round, round_=np_round,
    trunc=ew1(sym.trunc_),
    fmin=ew2(sym.fmin_), fmax=ew2(sym.fmax_), minimum=ew2(sym.minimum_), maximum=ew2(sym.maximum_),
    true_divide=ew2(_div1), divide=ew2(_div1), reciprocal=ew1(lambda x: _div1(1, x)),
    negative=ew1(lambda x: -x), sign=ew1(_sign), subtract=ew2(lambda a, b: a - b), add=ew2(lambda a, b: a + b),
    multiply=ew2(lambda a, b: a * b),
    isnan=ew1(_isnan), isinf=ew1(_isinf), isfinite=ew1(lambda x: not (_isnan(x) or _isinf(x))),
    array_equal=np_array_equal, isclose=np_isclose, allclose=np_allclose, all=np_all, any=np_any,
    clip=np_clip, where=np_where, linspace=np_linspace, arange=np_arange, tile=np_tile, repeat=np_repeat, column_stack=np_column_stack,
    max=np_max, min=np_min, amax=np_max, amin=np_min, mean=np_mean, average=np_mean,
    linalg=_LinAlg(), random=_Random(), frompyfunc=np_frompyfunc, vectorize=np_vectorize, errstate=np_errstate,
    searchsorted=np_searchsorted, argsort=np_argsort, sort=np_sort, trapz=np_trapz, shape=np_shape, isscalar=np_isscalar, nan_to_num=np_nan_to_num, interp=np_interp,
    deg2rad=ew1(lambda x: lift(x) * Sym(PI_T) / 180), radians=ew1(lambda x: lift(x) * Sym(PI_T) / 180),
    rad2deg=ew1(lambda x: lift(x) * 180 / Sym(PI_T)), degrees=ew1(lambda x: lift(x) * 180 / Sym(PI_T)),
    hypot=ew2(lambda a, b: sym.sqrt_(lift(a) * a + lift(b) * b)),
    float64=F64, float32=F64, float16=F64, float=F64, float_=F64, double=F64, floating=F64,
    int=VInt, int_=VInt, int64=VInt, int32=VInt, uint32=VInt, uint8=VInt, uint=VInt, uint64=VInt, intp=VInt, integer=VInt,
    bool=VBool, bool_=VBool, pi=Sym(PI_T), inf=math.inf, Inf=math.inf, nan=math.nan, NaN=math.nan,
    seterr=lambda *a, **k: {}, copy=lambda a, *r, **k: a.copy() if isinstance(a, (_np.ndarray, SArr)) else np_array(a),
)


class NP(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.__dict__.update(_OVER)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(_np, n)


NPX = NP()


class SList(object):
    """list of unknown length whose items are given by index; append extends it"""

    def __init__(self, n, item):
        self.n, self.item, self.new, self.memo = n, item, [], {}

    def __vlen__(self):
        return self.n + builtins.len(self.new) if self.new else self.n

    def __bool__(self):
        return bool(self.__vlen__() > 0)

    def append(self, x):
        self.new.append(x)

    def copy(self):
        c = SList(self.n, self.item)
        c.new, c.memo = list(self.new), self.memo
        return c

    def at(self, k):
        t = z3.simplify(sym.iterm(k))
        for j, x in enumerate(self.new):
            if z3.simplify(t - sym.iterm(self.n) - j).eq(z3.IntVal(0)):
                return x
        key = t.get_id()
        if key not in self.memo:
            self.memo[key] = (t, self.item(Sym(t) if not z3.is_int_value(t) else t.as_long()))
        return self.memo[key][1]

    def __getitem__(self, k):
        l = lift(k)
        if not isinstance(l, Sym) or not l.isint() and not l.isconst():
            raise TypeError('list indices must be integers')
        n = self.__vlen__()
        if l.isconst() and l.t < 0:
            l = n + builtins.int(l.t)
        ctx().definedness('index', bterm((l >= 0) & (l < n)))
        return self.at(l)

    def __iter__(self):
        raise Unsupported('iteration over a list of unknown length')


def list_repeat(x, n):
    """[x] * n for an unknown n"""
    m = Sym(z3.If(sym.iterm(n) > 0, sym.iterm(n), z3.IntVal(0)))
    return SArr((m,), lambda i: x[0])
