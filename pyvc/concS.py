"""concrete mode of the contract API: runs under the project's interpreter with
the real numpy.  Comparisons are three valued (None: within rounding)."""
import importlib
import math
import random

from pyvc import api
from pyvc.api import Discard


class ConcS(api.Base):
    symbolic = False
    inf = float('inf')

    def __init__(self, rng, model=None, opts=None):
        self.rng, self.model, self.opts = rng, model, opts or {}
        self.exact = self.opts.get('exact', False)
        self.tol = self.opts.get('tol', 1e-7)
        self.inputs = {}
        self.fails = []
        self.evals = 0
        self.pi = math.pi
        self.units = {}

    def mod(self, name):
        return importlib.import_module(name)

    def get(self, path):
        m, q = path.split(':')
        o = self.mod(m)
        for p in q.split('.'):
            o = getattr(o, p)
        return o

    def stub(self, path, fn):
        return None

    # ---- inputs
    def _rec(self, name, v):
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        if self.model is not None and name in self.model:
            v = self.model[name]
            v = float(v)
            return self._rec(name, v)
        r = self.rng
        l = -8. if lo is None else float(lo)
        h = 8. if hi is None else float(hi)
        if math.isinf(h):
            h = l + 16
        if lo is not None and hi is None:
            h = max(h, l + 8)
        if hi is not None and lo is None:
            l = min(l, h - 8)
        k = r.random()
        if k < .12:
            c = [x for x in (0., 1., -1., l, h, .5, 2.) if l <= x <= h]
            v = r.choice(c)
        elif k < .6 or self.exact:
            q = 4. if h - l > 4 else 32.
            n = int((h - l) * q)
            v = l + r.randint(0, max(n, 1)) / q if n > 0 else l
            v = min(max(v, l), h)
        else:
            v = r.uniform(l, h)
        return self._rec(name, v)

    def int(self, name, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        if self.model is not None and name in self.model:
            return self._rec(name, int(self.model[name]))
        l = -8 if lo is None else int(lo)
        h = l + 16 if hi is None else int(hi)
        return self._rec(name, self.rng.randint(l, h))

    def array(self, name, shape, lo=None, hi=None, facts=None):
        import numpy as np
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        n = 1
        for k in shape:
            n *= int(k)
        return np.array([self.real('%s[%d]' % (name, i), lo, hi) for i in range(n)], dtype=float).reshape(shape)

    def list(self, n, item):
        return [item(k) for k in range(n)]

    def at(self, a, *idx):
        for i in idx:
            a = a[int(i)]
        return a

    def bool(self, name):
        if name in self.inputs:
            return self.inputs[name]
        if self.model is not None and name in self.model:
            return self._rec(name, bool(self.model[name]))
        return self._rec(name, self.rng.random() < .5)

    def choice(self, name, opts):
        opts = list(opts)
        if name in self.inputs:
            return opts[self.inputs[name]]
        if self.model is not None and name in self.model:
            i = int(self.model[name])
            if not 0 <= i < len(opts):
                i = len(opts) - 1
        else:
            i = self.rng.randrange(len(opts))
        self._rec(name, i)
        return opts[i]

    def unit3(self, name):
        if name + 'x' in self.inputs:
            return tuple(self.inputs[name + c] for c in 'xyz')
        if self.model is not None and name + 'x' in self.model:
            v = [float(self.model.get(name + c, 0.)) for c in 'xyz']
        else:
            k = self.rng.random()
            if k < .15:
                v = [0., 0., 0.]
                v[self.rng.randrange(3)] = self.rng.choice([1., -1.])
            elif k < .35:
                v = list(self.rng.choice([(.6, .8, 0.), (0., .6, .8), (.8, 0., .6), (2 / 3., 2 / 3., 1 / 3.), (3 / 7., 6 / 7., 2 / 7.),
                                          (1 / 9., 4 / 9., 8 / 9.)]))
                v = [self.rng.choice([1, -1]) * x for x in v]
            else:
                v = [self.rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n == 0:
            raise Discard()
        v = [x / n for x in v]
        for c, x in zip('xyz', v):
            self._rec(name + c, x)
        return tuple(v)

    # ---- statements
    def requires(self, c, why=None):
        if not c:
            raise Discard()

    assume = requires

    def ensures(self, name, c, kind='ensures', by=None):
        self.evals += 1
        if c is False or (c is not None and not c):
            self.fails.append(name)

    def rewrite(self, a, b):
        return None

    def ideal(self, a, b):
        return None

    def poly_eq(self, a, b):
        return True

    def sqrt_hint(self, *r):
        return None

    def lemma(self, name, c):
        return None

    def vacuity(self, name='reach'):
        return None

    def assumption(self, text):
        return None

    def bounded(self, text):
        return None

    # ---- three valued logic
    def And(self, *a):
        r = True
        for x in a:
            if x is None:
                r = None
            elif not x:
                return False
        return r

    def Or(self, *a):
        r = False
        for x in a:
            if x is None:
                r = None
            elif x:
                return True
        return r

    def Not(self, a):
        return None if a is None else not a

    def _t(self, a, b):
        m = max(1., abs(a), abs(b))
        return self.tol * m

    def eq(self, a, b):
        a, b = float(a), float(b)
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return None if abs(a - b) <= self._t(a, b) else False

    def same(self, a, b):
        """bit-for-bit equality: for values that are copied, not computed"""
        return float(a) == float(b)

    def le(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if self.exact or math.isinf(a) or math.isinf(b):
            return a <= b
        d = abs(a - b)
        if d <= self._t(a, b):
            return None
        return a < b

    def lt(self, a, b):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if self.exact or math.isinf(a) or math.isinf(b):
            return a < b
        if abs(a - b) <= self._t(a, b):
            return None
        return a < b

    def truth(self, b):
        return bool(b)

    def decide(self, c):
        if c is None:
            raise Discard()
        return bool(c)

    # ---- spec functions
    def If(self, c, a, b):
        if c is None:
            raise Discard()
        return a if c else b

    def num(self, x):
        return float(x)

    def sqrt(self, x):
        x = float(x)
        return math.sqrt(x) if x >= 0 else (0. if x > -1e-9 else float('nan'))

    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def acos(self, x): return math.acos(min(1., max(-1., x)))
    def atan2(self, y, x): return math.atan2(y, x)
    def exp(self, x): return math.exp(x)
    def log(self, x): return math.log(x)
    def pow(self, x, e): return math.pow(x, e)
    def abs(self, x): return abs(x)
    def min(self, *a): return min(*a)
    def max(self, *a): return max(*a)
    def floor(self, x): return math.floor(x)
    def ceil(self, x): return math.ceil(x)
    def div(self, a, b): return float(a) / float(b)

    def isnum(self, x):
        x = float(x)
        return not (math.isnan(x) or math.isinf(x))

    def isnan(self, x):
        return math.isnan(float(x))

    # ---- frames
    def snap(self, x, depth=6):
        return snap(x, depth, {})

    def unchanged(self, x, s):
        return all(_same(x, s, set()))


class Snap(object):
    __slots__ = ('kind', 'ref', 'val')


def snap(x, depth, memo):
    import numpy as np
    if id(x) in memo:
        return memo[id(x)]
    s = Snap()
    s.ref = x
    if isinstance(x, np.ndarray):
        s.kind, s.val = 'arr', np.array(x)
        memo[id(x)] = s
    elif isinstance(x, (list, tuple)):
        s.kind = 'list'
        memo[id(x)] = s
        s.val = [snap(e, depth - 1, memo) for e in x] if depth else None
    elif isinstance(x, dict):
        s.kind = 'dict'
        memo[id(x)] = s
        s.val = {k: snap(e, depth - 1, memo) for k, e in x.items()} if depth else None
    elif hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x) and depth:
        s.kind = 'obj'
        memo[id(x)] = s
        s.val = {k: snap(e, depth - 1, memo) for k, e in x.__dict__.items()}
    else:
        s.kind, s.val = 'leaf', x
    return s


def _same(x, s, memo):
    import numpy as np
    if id(s) in memo:
        return []
    memo.add(id(s))
    if s.kind == 'arr':
        if np.shape(x) != s.val.shape:
            return [False]
        return [_leaf(a, b) for a, b in zip(np.asarray(x).reshape(-1), s.val.reshape(-1))]
    if s.kind == 'list':
        if s.val is None:
            return []
        if len(x) != len(s.val):
            return [False]
        return sum([_same(a, b, memo) for a, b in zip(x, s.val)], [])
    if s.kind == 'dict':
        if s.val is None:
            return []
        if set(x) != set(s.val):
            return [False]
        return sum([_same(x[k], s.val[k], memo) for k in s.val], [])
    if s.kind == 'obj':
        if type(x) is not type(s.ref) or set(x.__dict__) != set(s.val):
            return [False]
        return sum([_same(x.__dict__[k], s.val[k], memo) for k in s.val], [])
    return [_leaf(x, s.val)]


def _leaf(a, b):
    if a is b:
        return True
    try:
        if a != a and b != b:
            return True
        return bool(a == b)
    except Exception:
        return False
