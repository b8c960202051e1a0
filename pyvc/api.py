"""Contracts: registry and the operations usable in a contract.

A contract is a function  c(S)  that builds the arguments of the function under
contract, states requires, calls the REAL function and states ensures / frame.
The same text is executed
  * symbolically (python3-vt): every path of the real code yields verification
    conditions, decided for all inputs by the back ends, and
  * concretely (the project's own interpreter): replays counter-models and
    checks the contract at run time on the real code with the real numpy.
Python 3.9 compatible, no numpy import.
"""
import math

REG = {}
CUTS = {}       # (module, qualname) -> {loop ordinal: invariant object}


class Contract(object):
    def __init__(self, fn, prop, target, opts):
        self.fn, self.prop, self.target, self.opts = fn, prop, target, opts
        self.name = fn.__name__


def contract(prop, target, **opts):
    """opts: div/sqrt = strict|ieee|assume (definedness policy), exact (concrete
    arithmetic is exact on the generated inputs), bounded='text' (stand-in only),
    n (number of concrete runs), uses=[contracts assumed at call sites]"""
    def deco(fn):
        c = Contract(fn, prop, target if isinstance(target, (list, tuple)) else [target], opts)
        REG.setdefault(prop, [])
        assert all(o.name != c.name for o in REG[prop]), c.name
        REG[prop].append(c)
        return fn
    return deco


class RangeCut(object):
    """a loop over a range of unknown extent, cut at its invariant.
    havoc(locals, i) -> dict of the loop's variables in an arbitrary state satisfying the invariant before iteration i
    check(locals, i)  states (ensures) the invariant before iteration i"""

    def __init__(self):
        self.S = None
        self.stored = set()

    def accumulate(self, S, role):
        """a loop that only accumulates: role(name, value) -> ghost(i), the value of the variable before iteration i, given
        (the value before the loop decides the role), or None when the variable is not understood"""
        roles = {}

        def havoc(loc, i):
            from pyvc.sym import Unsupported
            out = {}
            for x in self.names:
                if x in loc and x not in self.stored and isinstance(loc[x], (list, dict, set)):
                    raise Unsupported('loop may change ' + x)
                if x in loc and x in self.stored:
                    if x not in roles:
                        raise Unsupported('loop variable %s has no role' % x)
                    out[x] = roles[x][0](i)
            return out

        def check(loc, i):
            from pyvc.sym import Unsupported
            for x in self.names:
                if x in loc and x in self.stored and x not in self.unbound:
                    if x not in roles:
                        g = role(x, loc[x])
                        if g is None:
                            raise Unsupported('loop variable %s has no role' % x)
                        roles[x] = g
                    S.ensures('invariant of ' + x, roles[x][1](loc[x], i), 'inv')
        if S.symbolic:
            self.use(S, havoc, check)

    def use(self, S, havoc, check):
        if S.symbolic:
            self.S, self.havoc, self.check = S, havoc, check
            S.cuts.append(self)

    def enter(self, names, loc, it):
        S = self.S
        if S is None:
            return {}
        lo, hi = (it.start, it.stop) if hasattr(it, 'start') else (0, it.__vlen__() if hasattr(it, '__vlen__') else len(it))
        self.names = names
        self.unbound = {x for x in names if x not in loc}
        self.carried = {x for x in self.stored if x in loc}
        self.lo = lo
        self.check(loc, lo)
        self.i = S.fresh_int('i')
        S.requires(S.And(S.le(lo, self.i), S.Or(S.le(self.i, hi), S.eq(self.i, lo))))
        self.hi = hi
        return self.havoc(loc, self.i)

    def iterate(self, it, frame):
        S = self.S
        if S is None:
            for x in it:
                yield x
            return
        if self.i < self.hi:
            yield it[self.i] if hasattr(it, '__vlen__') else self.i
            self.check(dict(frame.f_locals), self.i + 1)
            S.end_path()


class WhileCut(RangeCut):
    """a while loop cut at its invariant (same havoc and check, i counts iterations); variant(locals) is a natural number
    that every iteration decreases"""
    variant = None

    def enter(self, names, loc, it):
        S = self.S
        if S is None:
            return {}
        self.names = names
        self.unbound = {x for x in names if x not in loc}
        self.carried = {x for x in self.stored if x in loc}
        self.lo = 0
        self.check(loc, 0)
        self.i = S.fresh_int('i')
        S.requires(S.le(0, self.i))
        return self.havoc(loc, self.i)

    def iterate(self, it, frame):
        S = self.S
        if S is None:
            while True:
                yield None
        v = self.variant(dict(frame.f_locals)) if self.variant else None
        yield None
        loc = dict(frame.f_locals)
        self.check(loc, self.i + 1)
        if v is not None:
            S.ensures('loop terminates', S.And(S.le(0, v), S.lt(self.variant(loc), v)), 'inv')
        S.end_path()


def cut(module, qualname, ordinal=0, kind=RangeCut):
    return CUTS.setdefault((module, qualname), {}).setdefault(ordinal, kind())


class Discard(Exception):
    pass


class Base(object):
    """spec-side combinators shared by both modes; conditions are three valued
    in concrete mode (None = within rounding of the boundary)"""
    symbolic = False

    def mod(self, name):
        raise NotImplementedError

    # ---- derived helpers -------------------------------------------------
    def point(self, n, lo=None, hi=None):
        return self.mod('pytracer.geometry').Point(*[self.real(n + c, lo, hi) for c in 'xyz'])

    def vec(self, n, lo=None, hi=None):
        return self.mod('pytracer.geometry').Vector(*[self.real(n + c, lo, hi) for c in 'xyz'])

    def normal(self, n, lo=None, hi=None):
        return self.mod('pytracer.geometry').Normal(*[self.real(n + c, lo, hi) for c in 'xyz'])

    def unit(self, n, cls='Vector'):
        """an arbitrary unit vector"""
        x, y, z = self.unit3(n)
        return getattr(self.mod('pytracer.geometry'), cls)(x, y, z)

    def veq(self, a, b, n=3):
        return self.And(*[self.eq(a[i], b[i]) for i in range(n)])

    def dot(self, a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def sub(self, a, b):
        return [a[i] - b[i] for i in range(3)]

    def add(self, a, b):
        return [a[i] + b[i] for i in range(3)]

    def scale(self, a, k):
        return [a[i] * k for i in range(3)]

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def between(self, lo, x, hi):
        return self.And(self.le(lo, x), self.le(x, hi))

    def ne(self, a, b):
        return self.Not(self.eq(a, b))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Implies(a, b), self.Implies(b, a))

    def ensures_eq(self, name, a, b):
        self.ensures(name, self.eq(a, b))

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False
