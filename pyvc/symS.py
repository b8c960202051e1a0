"""symbolic mode of the contract API"""
import math
from fractions import Fraction

import numpy as _np
import z3

from . import api, loader, sym, npx
from .sym import Sym, SBool, Unsupported, PathEnd, bterm, ctx, lift, mkbool


class SymS(api.Base):
    symbolic = True
    inf = math.inf

    def __init__(self, opts):
        self.opts = opts
        self.pi = Sym(sym.PI_T)
        self.patches = []
        self.cuts = []

    # ---- modules / stubs
    def mod(self, name):
        return loader.load(name)

    def get(self, path):
        """'pytracer.geometry:BBox.union'"""
        m, q = path.split(':')
        o = self.mod(m)
        for p in q.split('.'):
            o = getattr(o, p)
        return o

    def _resolve(self, path):
        m, q = path.split(':')
        o = self.mod(m)
        ps = q.split('.')
        for p in ps[:-1]:
            o = getattr(o, p)
        return o, ps[-1]

    def stub(self, path, fn):
        """use a contract instead of the body at call sites (until the end of the path)"""
        o, n = self._resolve(path)
        old = o.__dict__[n]
        new = fn
        if isinstance(old, staticmethod):
            new = staticmethod(fn)
        elif isinstance(old, classmethod):
            new = classmethod(fn)
        self.patches.append((o, n, old))
        setattr(o, n, new)
        if not isinstance(o, type):
            import sys
            for mn, m in list(sys.modules.items()):
                if mn.startswith('pytracer') and m is not None and m is not o:
                    for k, v in list(m.__dict__.items()):
                        if v is old:
                            self.patches.append((m, k, old))
                            setattr(m, k, new)

    def undo(self):
        for c in self.cuts:
            c.S = None
        self.cuts = []
        for o, n, old in reversed(self.patches):
            setattr(o, n, old)
        self.patches = []

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        v = Sym(z3.Real(name))
        ctx().inputs[name] = ('real', lo, hi)
        if lo is not None:
            self.requires(v >= lo)
        if hi is not None:
            self.requires(v <= hi)
        return v

    def int(self, name, lo=None, hi=None):
        v = Sym(z3.Int(name))
        ctx().inputs[name] = ('int', lo, hi)
        if lo is not None:
            self.requires(v >= lo)
        if hi is not None:
            self.requires(v <= hi)
        return v

    def bool(self, name):
        ctx().inputs[name] = ('bool', None, None)
        return ctx().fork(z3.Bool(name))

    def array(self, name, shape, lo=None, hi=None, facts=None, sort='real'):
        """array of unknown extent (a symbolic integer per axis) with arbitrary contents"""
        def f(a, idx):
            v = a.at(*idx)
            out = [] if lo is None else [v >= lo]
            out += [] if hi is None else [v <= hi]
            return out + list(facts(a, *idx) if facts else [])
        return npx.SArr.base(name, shape if isinstance(shape, (tuple, list)) else (shape,), f, sort)

    def list(self, n, item):
        """list of unknown length n with items item(k)"""
        return npx.SList(n, item)

    def at(self, a, *idx):
        return a.at(*idx)

    def end_path(self):
        raise PathEnd('cut')

    def choice(self, name, opts):
        """one of opts; every alternative is explored"""
        opts = list(opts)
        ctx().inputs[name] = ('choice', len(opts), None)
        for i in range(len(opts) - 1):
            if ctx().fork(z3.Int(name) == i):
                return opts[i]
        ctx().add_pc(z3.Int(name) == len(opts) - 1)
        return opts[-1]

    def unit3(self, name):
        x, y, z = self.real(name + 'x'), self.real(name + 'y'), self.real(name + 'z')
        ctx().inputs[name + 'x'] = ('unit', name, 0)
        ctx().inputs[name + 'y'] = ('unit', name, 1)
        ctx().inputs[name + 'z'] = ('unit', name, 2)
        if self.opts.get('cancel'):
            self.rewrite(x * x, 1 - y * y - z * z)
            if not any(z3.is_rational_value(h) for h in ctx().sqrt_hints):
                self.sqrt_hint(Sym(Fraction(1)))
        else:
            self.requires(x * x + y * y + z * z == 1)
        return x, y, z

    def fresh(self, name='f', lo=None, hi=None):
        v = ctx().fresh(name)
        if lo is not None:
            self.requires(v >= lo)
        if hi is not None:
            self.requires(v <= hi)
        return v

    def fresh_int(self, name='i'):
        return ctx().fresh(name, 'int')

    def fresh_bool(self, name='b'):
        c = ctx()
        c.fresh_n += 1
        return mkbool(z3.Bool('%s!%d' % (name, c.fresh_n)))

    # ---- statements
    def requires(self, c, why=None):
        t = bterm(c)
        ctx().assume_t(t, why)

    assume = requires

    def ensures(self, name, c, kind='ensures', by=None):
        """by: [(coefficient, l, r)]  the equation c is the linear combination
        sum coefficient * (l - r) of the equations l = r (each checked)"""
        c = bterm(c)
        if by is not None and z3.is_eq(c):
            from . import poly
            hs = [(k, l, r) for k, l, r in by]
            acc = c.arg(0)
            for k, l, r in hs:
                acc = acc - (lift(k) * (lift(l) - lift(r))).r()
            if poly.proves_eq(acc, c.arg(1)):
                c = z3.And(*[bterm(self.eq(l, r)) for _, l, r in hs])
        ctx().check(name, c, kind)

    def ideal(self, a, b):
        """requires the polynomial equation a == b; the normal form is modulo the ideal of all such equations"""
        self.rewrite(a, b)
        ctx().ideal = True

    def rewrite(self, a, b):
        """requires a == b, and uses it (a -> b) in the normal form of terms"""
        a, b = lift(a).r(), lift(b).r()
        ctx().rewriting = True
        ctx().assume_t(a == b)
        ctx().rewriting = False
        ctx().rewrites.append((a, b))
        ctx().canc = None

    def sqrt_hint(self, *factors):
        """r, the product of the factors, each >= 0 (an obligation): sqrt(x) is r whenever x is r*r by normal form"""
        r = Sym(Fraction(1))
        for f in factors:
            f = lift(f)
            ctx().check('hinted root is not negative', (f.r() >= 0), 'lemma')
            r = r * f
        ctx().sqrt_hints.append(r.r())

    def lemma(self, name, c):
        ctx().check(name, bterm(c), 'lemma')

    def law(self, name, f, *args):
        """f(x...) holds for all reals (proved on its own, without the path condition); assumed of args"""
        c = ctx()
        xs = [Sym(z3.Real('law!%d' % i)) for i in range(len(args))]
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(z3.Not(bterm(f(*xs))))
        if s.check() != z3.unsat:
            from .sym import Unsupported
            raise Unsupported('law not proved: ' + name)
        c.check(name, z3.BoolVal(True), 'lemma')
        c.assume_t(bterm(f(*[lift(a) for a in args])), None)

    def vacuity(self, name='reach'):
        """marks a point that must be reachable on some path"""
        ctx().reached.add(name)

    def assumption(self, text):
        ctx().assumptions.add(text)

    def bounded(self, text):
        ctx().bounded.add(text)

    # ---- conditions
    def And(self, *a):
        ts = []
        for x in a:
            if isinstance(x, (SBool, z3.BoolRef)):
                ts.append(bterm(x))
            elif not x:
                return False
        return mkbool(z3.And(*ts)) if ts else True

    def Or(self, *a):
        ts = []
        for x in a:
            if isinstance(x, (SBool, z3.BoolRef)):
                ts.append(bterm(x))
            elif x:
                return True
        return mkbool(z3.Or(*ts)) if ts else False

    def Not(self, a):
        if isinstance(a, (SBool, z3.BoolRef)):
            return mkbool(z3.Not(bterm(a)))
        return not a

    def Implies(self, a, b):
        a, b = bterm(a), bterm(b)
        if z3.is_true(a):
            return b if not (z3.is_true(b) or z3.is_false(b)) else z3.is_true(b)
        if z3.is_false(a) or z3.is_true(b):
            return True
        return SBool(z3.Implies(a, b))

    def Iff(self, a, b):
        return mkbool(bterm(a) == bterm(b))

    def eq(self, a, b):
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            raise TypeError('eq of non numbers %r %r' % (a, b))
        if isinstance(la, float) or isinstance(lb, float):
            if isinstance(la, Sym) or isinstance(lb, Sym):
                return False
            return la == lb
        if la.isconst() and lb.isconst():
            return la.t == lb.t
        if ctx().ideal:
            from . import poly
            try:
                if poly.canceller(ctx()).eq_zero(la.r(), lb.r()):
                    return SBool(z3.BoolVal(True))
            except (poly.NotPoly, RecursionError):
                pass
        return SBool(la.r() == lb.r())

    def same(self, a, b):
        return self.eq(a, b)

    def le(self, a, b):
        return lift(a) <= b if isinstance(lift(a), Sym) else (lift(b) >= a if isinstance(lift(b), Sym) else a <= b)

    def lt(self, a, b):
        return lift(a) < b if isinstance(lift(a), Sym) else (lift(b) > a if isinstance(lift(b), Sym) else a < b)

    def truth(self, b):
        """a Boolean result of the code as a condition (no fork)"""
        if isinstance(b, (SBool, bool)):
            return b
        if isinstance(b, _np.bool_):
            return bool(b)
        if isinstance(b, Sym):
            return b != 0
        return bool(b)

    def decide(self, c):
        """fork on a condition"""
        return bool(c) if not isinstance(c, z3.BoolRef) else ctx().fork(c)

    # ---- spec functions
    def If(self, c, a, b):
        if not isinstance(c, SBool):
            return a if c else b
        return Sym(z3.If(c.t, lift(a).r(), lift(b).r()))

    def num(self, x):
        return Sym(Fraction(str(x))) if not isinstance(x, Sym) else x

    def sqrt(self, x):
        return sym.sqrt_(x)

    def sin(self, x): return sym.sin_(x)
    def cos(self, x): return sym.cos_(x)
    def acos(self, x): return sym.acos_(x)
    def atan2(self, y, x): return sym.atan2_(y, x)
    def exp(self, x): return sym.exp_(x)
    def log(self, x): return sym.log_(x)
    def pow(self, x, e): return sym.pow_(x, e)
    def abs(self, x): return abs(lift(x))
    def min(self, *a): return npx.v_min(*[lift(x) for x in a])
    def max(self, *a): return npx.v_max(*[lift(x) for x in a])
    def floor(self, x): return sym.floor_(x)
    def ceil(self, x): return sym.ceil_(x)

    def div(self, a, b):
        """spec-level division (b known nonzero)"""
        a, b = lift(a), lift(b)
        if b.isconst():
            return a / b
        return Sym(a.r() / b.r())

    def diff(self, y, x):
        """exact partial derivative of a result with respect to an input"""
        from . import poly
        y = lift(y)
        if y.isconst():
            return Sym(Fraction(0))
        return Sym(poly.diff(y.r(), x.t))

    def fn(self, name, *args):
        """value of an arbitrary function of reals (symbolic only)"""
        f = z3.Function(name + '!%d' % len(args), *([z3.RealSort()] * (len(args) + 1)))
        return Sym(f(*[sym.canon(lift(a).r()) for a in args]))

    def log2(self, x): return sym.log2_(x)

    def isnum(self, x):
        return isinstance(x, Sym) or isinstance(lift(x), Sym)

    def isnan(self, x):
        return sym.isnan_(x)

    def forall_real(self, name, fn):
        """spec quantifier"""
        v = z3.Real('q!' + name)
        return SBool(z3.ForAll([v], bterm(fn(Sym(v)))))

    def exists_real(self, name, fn):
        v = z3.Real('q!' + name)
        return SBool(z3.Exists([v], bterm(fn(Sym(v)))))

    # ---- frames
    def snap(self, x, depth=6):
        return snap(x, depth, {})

    def unchanged(self, x, s):
        return self.And(*_same(self, x, s, 6))


class Snap(object):
    __slots__ = ('kind', 'ref', 'val')


def snap(x, depth, memo):
    s = Snap()
    s.ref = x
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, _np.ndarray):
        s.kind, s.val = 'arr', x.copy()
        memo[id(x)] = s
    elif isinstance(x, (list, tuple)):
        s.kind = 'list'
        memo[id(x)] = s
        s.val = [snap(e, depth - 1, memo) for e in x] if depth else None
    elif isinstance(x, dict):
        s.kind = 'dict'
        memo[id(x)] = s
        s.val = {k: snap(e, depth - 1, memo) for k, e in x.items()} if depth else None
    elif hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x) and depth:
        s.kind = 'obj'
        memo[id(x)] = s
        s.val = {k: snap(e, depth - 1, memo) for k, e in x.__dict__.items()}
    else:
        s.kind, s.val = 'leaf', x
    return s


def _same(S, x, s, depth, memo=None):
    memo = memo if memo is not None else set()
    if id(s) in memo:
        return []
    memo.add(id(s))
    if s.kind == 'arr':
        if x is not s.ref and (not isinstance(x, _np.ndarray) or x.shape != s.val.shape):
            return [False]
        out = []
        for a, b in zip(x.reshape(-1), s.val.reshape(-1)):
            out += _leaf(S, a, b)
        return out
    if s.kind == 'list':
        if s.val is None:
            return []
        if len(x) != len(s.val):
            return [False]
        out = []
        for a, b in zip(x, s.val):
            out += _same(S, a, b, depth - 1, memo)
        return out
    if s.kind == 'dict':
        if s.val is None:
            return []
        if set(x) != set(s.val):
            return [False]
        return sum([_same(S, x[k], s.val[k], depth - 1, memo) for k in s.val], [])
    if s.kind == 'obj':
        if type(x) is not type(s.ref) or set(x.__dict__) != set(s.val):
            return [False]
        return sum([_same(S, x.__dict__[k], s.val[k], depth - 1, memo) for k in s.val], [])
    return _leaf(S, x, s.val)


def _leaf(S, a, b):
    if a is b:
        return []
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if isinstance(a, SBool) or isinstance(b, SBool):
            return [mkbool(bterm(a) == bterm(b))]
        return [a == b if not hasattr(a, 'shape') else False]
    if isinstance(la, float) and isinstance(lb, float) and math.isnan(la) and math.isnan(lb):
        return []
    return [S.eq(a, b)]


def _proves(self, c, ms=2000):
    """is the condition a consequence of the path so far (used to select a contract case)"""
    from . import vc
    o = vc.Obligation('q', list(ctx().pc), bterm(c), 'query', '')
    vc.discharge(o, timeout=ms / 1000., want_model=False)
    return o.status == 'proved'


def _identical(self, a, b):
    """the same term (up to simplification)"""
    la, lb = lift(a), lift(b)
    if la.isconst() or lb.isconst():
        return la.isconst() and lb.isconst() and la.t == lb.t
    if la.t.sort() != lb.t.sort():
        return False
    if la.t.eq(lb.t):
        return True
    d = z3.simplify(la.t - lb.t, som=True)
    return (z3.is_rational_value(d) or z3.is_int_value(d)) and str(d) == '0'


def _poly_eq(self, a, b):
    """equal by normal form (guides the order of lemmas; proves nothing by itself)"""
    from . import poly
    return poly.proves_eq(lift(a).r(), lift(b).r())


SymS.poly_eq = _poly_eq
SymS.proves = _proves
SymS.identical = _identical
SymS.Unsupported = Unsupported
