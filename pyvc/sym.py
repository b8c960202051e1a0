"""Symbolic values for the VC generator (runs under python3-vt only).

Sym    a mathematical real (or integer) : exact rational constant or z3 term
SBool  a symbolic truth value; forcing it to a Python bool forks the path
inf / nan are kept as Python floats and follow IEEE-754 rules.
"""
import math
import numbers
from fractions import Fraction

import z3

RS, IS = z3.RealSort(), z3.IntSort()
_UF = {n: z3.Function(n, *([RS] * (k + 1))) for n, k in
       dict(sqrt=1, sin=1, cos=1, asin=1, acos=1, atan=1, atan2=2, exp=1, log=1, pow=2, log2=1).items()}
PI_T = z3.Real('pi!')


class Unsupported(Exception):
    """construct outside the generator's reach: the function is undecided"""


class PathEnd(Exception):
    """path finished early (assumption false, loop body verified)"""


class _ImportCtx:
    """module-level code: only constants and pi occur"""
    div_mode = sqrt_mode = 'skip'
    fork_ite = False
    assumptions = set()

    def fork(self, t):
        s = z3.Solver()
        s.add(PI_T > z3.Q(314159, 100000), PI_T < z3.Q(314160, 100000), t)
        a = s.check()
        s2 = z3.Solver()
        s2.add(PI_T > z3.Q(314159, 100000), PI_T < z3.Q(314160, 100000), z3.Not(t))
        b = s2.check()
        if a == z3.sat and b == z3.unsat:
            return True
        if a == z3.unsat and b == z3.sat:
            return False
        raise Unsupported('symbolic decision at import time')

    def definedness(self, kind, t):
        return None

    def assume_t(self, t, why=None):
        return None

    def concretize(self, s):
        raise Unsupported('symbolic index at import time')


class Ctx:
    cur = None
    static = _ImportCtx()


def ctx():
    return Ctx.cur or Ctx.static


def is_special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def frac_of_float(x):
    return Fraction(repr(float(x)))


def zfrac(f):
    return z3.RealVal(str(f.numerator)) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def _int_like(o):
    import numpy as np
    return isinstance(o, (bool, int, np.integer, np.bool_))


def lift(o):
    """-> Sym, or special float; None if not a number"""
    if isinstance(o, Sym):
        return o
    if getattr(o, 'ndim', 0) and hasattr(o, 'dtype'):
        return None
    if isinstance(o, SBool):
        return Sym(z3.If(o.t, z3.RealVal(1), z3.RealVal(0)))
    if _int_like(o):
        return Sym(Fraction(int(o)))
    if isinstance(o, Fraction):
        return Sym(o)
    if isinstance(o, numbers.Real) or type(o).__module__ == 'numpy' and hasattr(o, 'dtype') and getattr(o, 'ndim', 1) == 0 and o.dtype.kind == 'f':
        f = float(o)
        if is_special(f):
            return f
        return Sym(frac_of_float(f))
    return None


def term(o):
    """z3 real/int term of a finite number"""
    if isinstance(o, Sym):
        return o.z()
    if isinstance(o, SBool):
        return z3.If(o.t, z3.RealVal(1), z3.RealVal(0))
    l = lift(o)
    if isinstance(l, Sym):
        return l.z()
    raise Unsupported('not a finite number: %r' % (o,))


def bterm(b):
    if isinstance(b, SBool):
        return b.t
    if isinstance(b, z3.BoolRef):
        return b
    return z3.BoolVal(bool(b))


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def real(t):
    return z3.ToReal(t) if t.sort() == IS else t


def is_intlike(x):
    if isinstance(x, Sym):
        return x.isint()
    return _int_like(x)


def mk(t):
    """Sym from z3 term, folding numerals"""
    if z3.is_rational_value(t):
        return Sym(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_int_value(t):
        return t.as_long()
    return Sym(t)


def sign_fork(s):
    """fork on the sign of a Sym: -1, 0, 1"""
    if s > 0:
        return 1
    if s < 0:
        return -1
    return 0


def _sp_arith(op, a, b):
    """a op b where at least one side is inf/nan (other may be Sym)"""
    def f(x):
        if isinstance(x, Sym):
            if x.isconst():
                return float(x.t)
            if op in '+-':
                return 1.0
            return float(sign_fork(x))
        return x
    x, y = f(a), f(b)
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y if not (math.isnan(x) or math.isnan(y)) else math.nan
    if op == '/':
        if math.isnan(x) or math.isnan(y):
            return math.nan
        if math.isinf(y):
            if math.isinf(x):
                return math.nan
            return Sym(Fraction(0))
        if y == 0:
            return x     # +0 divisor
        return x / y
    raise Unsupported('special ' + op)


def iterm(x):
    """integer term of an index"""
    if isinstance(x, Sym):
        if x.isconst():
            return z3.IntVal(int(x.t))
        if x.isint():
            return x.t
        raise Unsupported('real index')
    return z3.IntVal(int(x))


class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # -- basic -------------------------------------------------------
    def isconst(self):
        return isinstance(self.t, Fraction)

    def isint(self):
        return (not isinstance(self.t, Fraction)) and self.t.sort() == IS

    def z(self):
        return zfrac(self.t) if isinstance(self.t, Fraction) else self.t

    def r(self):
        return zfrac(self.t) if isinstance(self.t, Fraction) else real(self.t)

    def __repr__(self):
        return 'Sym(%s)' % (self.t,)

    def __hash__(self):
        return hash(self.t) if isinstance(self.t, Fraction) else self.t.hash()

    # -- arithmetic --------------------------------------------------
    def _bin(self, o, op, rev=False):
        l = lift(o)
        if l is None:
            if op == '*' and isinstance(o, list) and len(o) == 1 and self.isint() and not self.isconst():
                from . import npx
                return npx.list_repeat(o, self)
            return NotImplemented
        a, b = (l, self) if rev else (self, l)
        if isinstance(a, float) or isinstance(b, float):
            return _sp_arith(op, a, b)
        ac, bc = a.isconst(), b.isconst()
        if ac and bc:
            x, y = a.t, b.t
            if op == '+':
                return Sym(x + y)
            if op == '-':
                return Sym(x - y)
            if op == '*':
                return Sym(x * y)
            if y != 0:
                return Sym(x / y)
        keep_int = (a.isint() or (rev and _int_like(o))) and (b.isint() or (not rev and _int_like(o)))
        if op == '+':
            if ac and a.t == 0:
                return b
            if bc and b.t == 0:
                return a
        elif op == '-':
            if bc and b.t == 0:
                return a
        elif op == '*':
            if ac:
                if a.t == 0 and not keep_int:
                    return Sym(Fraction(0))
                if a.t == 1:
                    return b
            if bc:
                if b.t == 0 and not keep_int:
                    return Sym(Fraction(0))
                if b.t == 1:
                    return a
        if op == '/':
            return _div(a, b)
        if keep_int:
            za = z3.IntVal(int(a.t)) if ac else a.t
            zb = z3.IntVal(int(b.t)) if bc else b.t
        else:
            za, zb = a.r(), b.r()
        if op == '+':
            z = za + zb
        elif op == '-':
            z = za - zb
        else:
            z = za * zb
        if not keep_int and getattr(ctx(), 'cancel', False):
            from . import poly
            return mk(poly.cancel(z, ctx()))
        return Sym(z)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)

    def __neg__(self):
        if self.isconst():
            return Sym(-self.t)
        return Sym(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.isconst():
            return Sym(abs(self.t))
        return Sym(z3.If(self.t >= 0, self.t, -self.t))

    def _floordiv(self, a, b):
        if a.isconst() and b.isconst():
            return Sym(Fraction(a.t // b.t))
        ii = lambda s: s.isint() or (s.isconst() and s.t.denominator == 1)
        if ii(a) and ii(b) and b.isconst() and b.t > 0:
            za = z3.IntVal(int(a.t)) if a.isconst() else a.t
            return Sym(za / z3.IntVal(int(b.t)))
        if ii(a) and ii(b):
            za, zb = (z3.IntVal(int(x.t)) if x.isconst() else x.t for x in (a, b))
            q = z3.Function('floordiv', z3.IntSort(), z3.IntSort(), z3.IntSort())(za, zb)
            c = Ctx.cur
            c.definedness('division by zero', zb != 0)
            c.add_pc(z3.Implies(zb > 0, z3.And(zb * q <= za, za < zb * q + zb)))
            c.add_pc(z3.Implies(zb < 0, z3.And(zb * q >= za, za > zb * q + zb)))
            return Sym(q)
        q = _div(a, b)
        return floor_(q)

    def __floordiv__(self, o):
        l = lift(o)
        if not isinstance(l, Sym):
            raise Unsupported('floordiv')
        return self._floordiv(self, l)

    def __rfloordiv__(self, o):
        l = lift(o)
        if not isinstance(l, Sym):
            raise Unsupported('floordiv')
        return self._floordiv(l, self)

    def __mod__(self, o):
        l = lift(o)
        if not isinstance(l, Sym):
            raise Unsupported('mod')
        if self.isint() and l.isconst() and l.t > 0 and l.t.denominator == 1:
            return Sym(self.t % z3.IntVal(int(l.t)))
        return self - l * self._floordiv(self, l)

    def __rmod__(self, o):
        l = lift(o)
        return l - self * self._floordiv(l, self)

    def __and__(self, o):
        k = lift(o)
        if isinstance(k, Sym) and k.isconst() and self.isint() and k.t >= 0 and (int(k.t) + 1) & int(k.t) == 0:
            return self % (int(k.t) + 1)
        if isinstance(k, Sym) and k.isconst() and self.isint() and k.t > 0:
            m, out = int(k.t), 0
            for b in range(m.bit_length()):
                if m >> b & 1:
                    out = out + (self // 2 ** b % 2) * 2 ** b
            return out
        raise Unsupported('bitwise and')
    __rand__ = __and__

    def __rshift__(self, o):
        k = lift(o)
        if isinstance(k, Sym) and k.isconst() and self.isint():
            return self // 2 ** int(k.t)
        raise Unsupported('shift')

    def __lshift__(self, o):
        k = lift(o)
        if isinstance(k, Sym) and k.isconst() and self.isint():
            return self * 2 ** int(k.t)
        raise Unsupported('shift')

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return pow_(self, o)

    def __rpow__(self, o):
        return pow_(lift(o), self)

    # -- comparison --------------------------------------------------
    def _cmp(self, o, op):
        l = lift(o)
        if l is None:
            return NotImplemented
        if isinstance(l, float):
            if math.isnan(l):
                return op == '!='
            big = l > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
        if self.isconst() and l.isconst():
            x, y = self.t, l.t
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        if self.isint() and (l.isint() or (l.isconst() and l.t.denominator == 1)):
            a = self.t
            b = l.t if l.isint() else z3.IntVal(int(l.t))
        elif l.isint() and self.isconst() and self.t.denominator == 1:
            a, b = z3.IntVal(int(self.t)), l.t
        else:
            a, b = self.r(), l.r()
        if op == '<':
            return mkbool(a < b)
        if op == '<=':
            return mkbool(a <= b)
        if op == '>':
            return mkbool(a > b)
        if op == '>=':
            return mkbool(a >= b)
        if op == '==':
            return mkbool(a == b)
        return mkbool(a != b)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        if self.isconst():
            return self.t != 0
        return bool(mkbool(self.t != 0))

    # -- conversions -------------------------------------------------
    def __index__(self):
        if self.isconst():
            if self.t.denominator == 1:
                return int(self.t)
            raise TypeError('non-integer index')
        if self.isint():
            return ctx().concretize(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        if self.isconst():
            return int(self.t)
        if self.isint():
            return ctx().concretize(self)
        raise Unsupported('int() of symbolic real through C code')

    def __float__(self):
        if self.isconst():
            return float(self.t)
        raise Unsupported('float() of symbolic value through C code')

    def __round__(self, n=None):
        if self.isconst():
            return round(self.t) if n is None else Sym(Fraction(round(self.t, n)))
        raise Unsupported('round')

    def __floor__(self): return floor_(self)
    def __ceil__(self): return ceil_(self)

    def __trunc__(self):
        return trunc_(self)

    # -- numpy scalar interface (used by object ufuncs and by code) --
    def sqrt(self): return sqrt_(self)
    def sin(self): return sin_(self)
    def cos(self): return cos_(self)
    def tan(self): return sin_(self) / cos_(self)
    def exp(self): return exp_(self)
    def log(self): return log_(self)
    def arccos(self): return acos_(self)
    def arcsin(self): return asin_(self)
    def arctan(self): return atan_(self)
    def floor(self): return floor_(self)
    def ceil(self): return ceil_(self)
    def rint(self): return rint_(self)
    def fabs(self): return abs(self)
    def conjugate(self): return self
    def copy(self): return self
    def item(self): return self

    def astype(self, tp, **kw):
        return tp(self)

    def view(self, *a, **k):
        return self

    def all(self): return bool(self)
    def any(self): return bool(self)

    def clip(self, lo, hi):
        return min_(max_(self, lo), hi)

    @property
    def real(self): return self

    @property
    def size(self): return 1

    def is_integer(self):
        return self == floor_(self)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().fork(self.t)

    def __repr__(self):
        return 'SBool(%s)' % self.t

    def __hash__(self):
        return self.t.hash()

    def __and__(self, o): return mkbool(z3.And(self.t, bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return mkbool(z3.Or(self.t, bterm(o)))
    __ror__ = __or__
    def __xor__(self, o): return mkbool(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__
    def __invert__(self): return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)) or type(o).__name__ == 'bool_':
            return mkbool(self.t == bterm(o))
        if lift(o) is not None:
            return lift(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(bterm(r)))

    def _n(self): return lift(self)
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __lt__(self, o): return self._n() < o
    def __gt__(self, o): return self._n() > o
    def __le__(self, o): return self._n() <= o
    def __ge__(self, o): return self._n() >= o

    def __index__(self):
        return 1 if bool(self) else 0

    def all(self): return bool(self)
    def any(self): return bool(self)


# ---------------------------------------------------------------- division
def _div(a, b):
    """a, b Sym."""
    if b.isconst():
        if b.t != 0:
            if a.isconst():
                return Sym(a.t / b.t)
            return Sym(a.r() * zfrac(1 / b.t))
        return _div0(a)
    mode = ctx().div_mode
    if mode == 'ieee':
        if b == 0:
            return _div0(a)
    elif mode == 'strict':
        ctx().definedness('div', b.z() != 0)
    elif mode == 'assume':
        ctx().assume_t(b.z() != 0, 'divisor nonzero')
    z = a.r() / b.r()
    if getattr(ctx(), 'cancel', False):
        from . import poly
        return mk(poly.cancel(z, ctx()))
    return Sym(z)


def _div0(a):
    c = ctx()
    if c.div_mode != 'ieee':
        c.definedness('div', z3.BoolVal(False))
        raise PathEnd('division by zero')
    s = sign_fork(a)
    return math.inf if s > 0 else (-math.inf if s < 0 else math.nan)


# ---------------------------------------------------------------- functions
def canon(t, quotient=False):
    """argument of an opaque function: in cancel mode its normal form, so that equal arguments are the same term"""
    c = ctx()
    if getattr(c, 'cancel', False):
        from . import poly
        return poly.canon(t, c, quotient=quotient)
    return t


def _un(name, s):
    return Sym(_UF[name](canon(s.r())))


def sqrt_(x):
    s = lift(x)
    if isinstance(s, float):
        return math.sqrt(s) if s > 0 else math.nan
    if s.isconst():
        if s.t < 0:
            ctx().definedness('sqrt', z3.BoolVal(False))
            return math.nan
        n, d = s.t.numerator, s.t.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Sym(Fraction(rn, rd))
        return _un('sqrt', s)
    if getattr(ctx(), 'sqrt_hints', None):
        from . import poly
        r = poly.known_root(s.r(), ctx())
        if r is not None:
            return mk(r)
    m = ctx().sqrt_mode
    if m == 'strict':
        ctx().definedness('sqrt', s.r() >= 0)
    elif m == 'ieee':
        if s < 0:
            return math.nan
    elif m == 'assume':
        ctx().assume_t(s.r() >= 0, 'sqrt argument nonnegative')
    return Sym(_UF['sqrt'](canon(s.r(), quotient=True)))


def _pi_multiple(s):
    """if s = q*pi for rational q return q"""
    if s.isconst():
        return Fraction(0) if s.t == 0 else None
    t = z3.simplify(s.t)
    if t.eq(PI_T):
        return Fraction(1)
    if z3.is_mul(t) and t.num_args() == 2 and t.arg(1).eq(PI_T) and z3.is_rational_value(t.arg(0)):
        v = t.arg(0)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


_SINQ = {Fraction(0): 0, Fraction(1, 6): Fraction(1, 2), Fraction(1, 2): 1, Fraction(5, 6): Fraction(1, 2),
         Fraction(1): 0, Fraction(7, 6): Fraction(-1, 2), Fraction(3, 2): -1, Fraction(11, 6): Fraction(-1, 2)}


def _shift(t):
    """t = r + q pi with q in {0, 1/2, 1, 3/2} modulo 2: -> (r, q) ; q None when t has no such addend"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD:
        ch = t.children()
        for i, a in enumerate(ch):
            q = _pi_multiple(Sym(a)) if not z3.is_rational_value(a) else None
            if q and (2 * q).denominator == 1:
                r = [c for j, c in enumerate(ch) if j != i]
                return (z3.Sum(r) if len(r) > 1 else r[0]), q % 2
    return t, None


def sin_(x):
    s = lift(x)
    if isinstance(s, float):
        return math.nan
    t, k = _shift(z3.simplify(canon(s.r()), som=True)) if not s.isconst() else (None, None)
    if k is not None:
        t = Sym(t)
        return {0: lambda: sin_(t), 1: lambda: -sin_(t), Fraction(1, 2): lambda: cos_(t), Fraction(3, 2): lambda: -cos_(t)}[k]()
    q = _pi_multiple(s)
    if q is not None and (q % 2) in _SINQ:
        return Sym(Fraction(_SINQ[q % 2]))
    t = z3.simplify(canon(s.r()), som=True)
    if _leading_neg(t):
        return Sym(-_UF['sin'](z3.simplify(-t, som=True)))
    return Sym(_UF['sin'](t))


def cos_(x):
    s = lift(x)
    if isinstance(s, float):
        return math.nan
    t, k = _shift(z3.simplify(canon(s.r()), som=True)) if not s.isconst() else (None, None)
    if k is not None:
        t = Sym(t)
        return {0: lambda: cos_(t), 1: lambda: -cos_(t), Fraction(1, 2): lambda: -sin_(t), Fraction(3, 2): lambda: sin_(t)}[k]()
    q = _pi_multiple(s)
    if q is not None and ((q + Fraction(1, 2)) % 2) in _SINQ:
        return Sym(Fraction(_SINQ[(q + Fraction(1, 2)) % 2]))
    t = z3.simplify(canon(s.r()), som=True)
    if _leading_neg(t):
        return Sym(_UF['cos'](z3.simplify(-t, som=True)))
    return Sym(_UF['cos'](t))


def _leading_neg(t):
    if z3.is_mul(t):
        a = t.arg(0)
        return z3.is_rational_value(a) and a.numerator_as_long() < 0
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UMINUS:
        return True
    return False


def acos_(x):
    s = lift(x)
    if isinstance(s, float):
        return math.nan
    if s.isconst():
        k = {1: Fraction(0), 0: Fraction(1, 2), -1: Fraction(1)}.get(s.t)
        if k is not None:
            return Sym(PI_T) * Sym(k)
    if ctx().sqrt_mode == 'strict':
        ctx().definedness('acos', z3.And(s.r() >= -1, s.r() <= 1))
    return _un('acos', s)


def asin_(x):
    s = lift(x)
    if isinstance(s, float):
        return math.nan
    if ctx().sqrt_mode == 'strict':
        ctx().definedness('asin', z3.And(s.r() >= -1, s.r() <= 1))
    return _un('asin', s)


def atan_(x):
    s = lift(x)
    if isinstance(s, float):
        raise Unsupported('atan inf')
    if s.isconst() and s.t == 0:
        return s
    return _un('atan', s)


def atan2_(y, x):
    a, b = lift(y), lift(x)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('atan2 inf')
    return Sym(_UF['atan2'](canon(a.r()), canon(b.r())))


def exp_(x):
    s = lift(x)
    if isinstance(s, float):
        return Sym(Fraction(0)) if s == -math.inf else s
    if s.isconst() and s.t == 0:
        return Sym(Fraction(1))
    return _un('exp', s)


def log_(x):
    s = lift(x)
    if isinstance(s, float):
        raise Unsupported('log inf')
    if s.isconst() and s.t == 1:
        return Sym(Fraction(0))
    if ctx().sqrt_mode == 'strict':
        ctx().definedness('log', s.r() > 0)
    return _un('log', s)


def pow_(x, e):
    a, b = lift(x), lift(e)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('pow special')
    if b.isconst():
        k = b.t
        if k.denominator == 1:
            k = int(k)
            if a.isconst():
                if k >= 0 or a.t != 0:
                    return Sym(a.t ** k)
            if k == 0:
                return Sym(Fraction(1))
            r = a
            for _ in range(abs(k) - 1):
                r = r * a
            return r if k > 0 else Sym(Fraction(1)) / r
        if k.__class__ is Fraction and k.denominator == 2:
            q = sqrt_(a)
            if k == Fraction(1, 2):
                return q
            n = int(k - Fraction(1, 2))
            return pow_(a, n) * q if n > 0 else q / pow_(a, -n)
    if ctx().sqrt_mode == 'strict':
        ctx().definedness('pow', a.r() >= 0)
    t = a.r()
    if getattr(ctx(), 'cancel', False) and z3.is_app(t) and t.decl().name() == 'pow':
        # (x^p)^q = x^(pq) for x > 0
        from . import poly
        base, p = t.children()
        q = poly.cancel(z3.simplify(p) * b.r(), ctx())
        n = z3.simplify(q)
        if z3.is_rational_value(n):
            ctx().check('base of nested powers is positive', base > 0, 'lemma')
            return pow_(Sym(base), Sym(n.as_fraction()))
    return Sym(_UF['pow'](canon(t), canon(b.r())))


def log2_(x):
    s = lift(x)
    if s.isconst() and s.t == 0:
        return -math.inf
    if s.isconst() and s.t > 0:
        k = 0
        t = s.t
        while t > 1 and t.denominator == 1 and t.numerator % 2 == 0:
            t /= 2
            k += 1
        if t == 1:
            return Sym(Fraction(k))
        return Sym(frac_of_float(math.log2(s.t)))
    return _un('log2', s)


def floor_(x):
    s = lift(x)
    if isinstance(s, float):
        return s
    if s.isconst():
        return Sym(Fraction(math.floor(s.t)))
    if s.isint():
        return s
    t = s.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return Sym(t.arg(0))
    if getattr(ctx(), 'split_floor', False):
        w = ctx().whole(t)
        if w is not None:
            return Sym(w) if not z3.is_int_value(w) else Sym(Fraction(w.as_long()))
    return Sym(z3.ToInt(t))


def ceil_(x):
    s = lift(x)
    if isinstance(s, float):
        return s
    if s.isint():
        return s
    if s.isconst():
        return Sym(Fraction(math.ceil(s.t)))
    return -floor_(-s)


def trunc_(x):
    s = lift(x)
    if isinstance(s, float):
        raise OverflowError('cannot convert special float to integer')
    if s.isconst():
        return int(s.t)
    if s.isint():
        return s
    t = s.t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return Sym(t.arg(0))
    return Sym(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def rint_(x):
    s = lift(x)
    if isinstance(s, float):
        return s
    if s.isconst():
        return Sym(Fraction(round(s.t)))
    if s.isint():
        return s
    f = z3.ToInt(s.t)
    d = s.t - z3.ToReal(f)
    h = z3.Q(1, 2)
    return Sym(z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def _ite(c, a, b):
    """c bool|SBool; a,b numbers (may be special)"""
    if not isinstance(c, SBool):
        return a if c else b
    la, lb = lift(a), lift(b)
    if isinstance(la, float) or isinstance(lb, float) or la is None or lb is None or ctx().fork_ite:
        return a if bool(c) else b
    if la.isint() and lb.isint():
        return Sym(z3.If(c.t, la.t, lb.t))
    if la.isint() and lb.isconst() and lb.t.denominator == 1:
        return Sym(z3.If(c.t, la.t, z3.IntVal(int(lb.t))))
    if lb.isint() and la.isconst() and la.t.denominator == 1:
        return Sym(z3.If(c.t, z3.IntVal(int(la.t)), lb.t))
    return Sym(z3.If(c.t, la.r(), lb.r()))


def isnan_(x):
    return isinstance(x, float) and math.isnan(x)


def min_(a, b):
    """Python min(a,b): b if b < a else a"""
    return _ite(_lt(b, a), b, a)


def max_(a, b):
    return _ite(_lt(a, b), b, a)


def _lt(a, b):
    if isinstance(a, Sym) or not isinstance(b, Sym):
        return a < b
    return b > a


def fmin_(a, b):
    if isnan_(a):
        return b
    if isnan_(b):
        return a
    return min_(a, b)


def fmax_(a, b):
    if isnan_(a):
        return b
    if isnan_(b):
        return a
    return max_(a, b)


def minimum_(a, b):
    if isnan_(a) or isnan_(b):
        return math.nan
    return min_(a, b)


def maximum_(a, b):
    if isnan_(a) or isnan_(b):
        return math.nan
    return max_(a, b)


def abs_(x):
    if isinstance(x, Sym):
        if ctx().fork_ite and not x.isconst():
            return x if x >= 0 else -x
        return abs(x)
    return abs(x)
