"""C19: image maps (texel access, filtered look-ups, construction) and image textures."""
from pyvc import api
from pyvc.api import contract
from contracts.c17_lights import Rec
from contracts.c10_film import Grid

U = 'pytracer.texture.utility'
I = 'pytracer.texture.texture.image'
P = 'C19'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)
SO = dict(div='assume', sqrt='assume', tol=1e-6)


class Span(api.RangeCut):
    """a loop that notes its range"""
    def enter(self, names, loc, it):
        if self.S is not None:
            self.span = (it.start, it.stop)
        return super().enter(names, loc, it)


SUM = [api.cut(U, 'MIPMap.__EWA', k, Span) for k in range(2)]
BUILD = [api.cut(U, 'MIPMap.__init__', k, Span) for k in range(10)]
PYR = 7, 8, 9
WRAPS = ('REPEAT', 'BLACK', 'CLAMP')


# ------------------------------------------------------------------ the map seen from outside
class Level(object):
    """one level: height x width texels, rows first"""

    def __init__(self, S, k, v, u, px):
        self.S, self.k, self.shape, self.px = S, k, (v, u), px

    def __getitem__(self, i):
        S = self.S
        t, s = i
        S.ensures('a texel of the level', S.And(S.le(0, t), S.lt(t, self.shape[0]), S.le(0, s), S.lt(s, self.shape[1])))
        return self.px(self.k, t, s)


class Levels(object):
    def __init__(self, S, n, px):
        self.S, self.n, self.px = S, n, px
        self.u, self.v = S.array('us', n, lo=1, sort='int'), S.array('vs', n, lo=1, sort='int')

    def __getitem__(self, k):
        S = self.S
        S.ensures('a level of the map', S.And(S.le(0, k), S.lt(k, self.n)))
        return Level(S, k, self.v.at(k), self.u.at(k), self.px)


class Oracle(object):
    """concretely: the pyramid computed independently from the image"""

    def __init__(self, img, wrap):
        self.wrap, self.p = wrap, [img]
        while len(self.p) < 1 + max(img.shape).bit_length() - 1:
            import numpy
            v, u = max(1, self.p[-1].shape[0] // 2), max(1, self.p[-1].shape[1] // 2)
            k = len(self.p) - 1
            self.p.append(numpy.array([[sum(self.texel(k, 2 * s + a, 2 * t + b) for a in (0, 1) for b in (0, 1)) / 4. for s in range(u)] for t in range(v)]))

    def texel(self, k, s, t):
        l = self.p[k]
        v, u = l.shape
        if self.wrap == 'REPEAT':
            return l[t % v, s % u]
        if self.wrap == 'CLAMP':
            return l[min(max(t, 0), v - 1), min(max(s, 0), u - 1)]
        return l[t, s] if 0 <= t < v and 0 <= s < u else 0.


def public(S, wrap, **k):
    """concretely: a map of random numbers, and the pyramid expected of it"""
    m = S.mod(U)
    h, w = S.choice('height', [1, 2, 4, 8]), S.choice('width', [1, 2, 4, 8])
    img = S.array('px', (h, w), 0, 1)
    return m.MIPMap(float, img, wrap=getattr(m.ImageWrap, wrap), **k), Oracle(img.copy(), wrap)


def setup(S, wrap, **k):
    """a map of any number of levels of any size; texel(k, s, t), width(k), height(k), levels"""
    m = S.mod(U)
    if not S.symbolic:
        mp, o = public(S, wrap, **k)
        return mp, o.texel, lambda k: o.p[k].shape[1], lambda k: o.p[k].shape[0], len(o.p)
    n = S.int('n', 1, 12)
    px = lambda k, t, s: S.fn('px', k, t, s)
    mp = m.MIPMap.__new__(m.MIPMap)
    lv = Levels(S, n, px)
    mp.__dict__.update(typename=float, trilinear=k.get('trilinear', False), max_aniso=k.get('max_aniso', 8.), wrap=getattr(m.ImageWrap, wrap),
                       _MIPMap__n_levels=n, _MIPMap__pyramid=lv, _MIPMap__width=lv.u.at(0), _MIPMap__height=lv.v.at(0))

    def texel(k, s, t):
        u, v = lv.u.at(k), lv.v.at(k)
        if wrap == 'REPEAT':
            return px(k, t % v, s % u)
        if wrap == 'CLAMP':
            return px(k, S.max(0, S.min(t, v - 1)), S.max(0, S.min(s, u - 1)))
        inside = S.And(S.le(0, t), S.lt(t, v), S.le(0, s), S.lt(s, u))
        return S.If(inside, px(k, t, s), 0)
    return mp, texel, lv.u.at, lv.v.at, n


@contract(P, [U + ':MIPMap.texel', U + ':MIPMap.width', U + ':MIPMap.height', U + ':MIPMap.levels'], **SO)
def texels(S):
    """texel (s, t) is column s of row t; outside the level the image repeats, is black, or continues its edge"""
    wrap = S.choice('wrap', WRAPS)
    mp, texel, w, h, n = setup(S, wrap)
    k = S.int('k', 0, 3)
    S.requires(S.lt(k, n))
    s, t = S.int('s', -20, 20), S.int('t', -20, 20)
    S.ensures('texel', S.eq(mp.texel(k, s, t), texel(k, s, t)))
    S.ensures('size', S.And(S.eq(mp.width, w(0)), S.eq(mp.height, h(0)), S.eq(mp.levels, n)))


def inter(S, texel, w, h, k, s, t):
    """bilinear interpolation between the four texel centres around (s, t) of level k"""
    x, y = s * w(k) - S.num('0.5'), t * h(k) - S.num('0.5')
    i, j = S.floor(x), S.floor(y)
    a, b = x - i, y - j
    if not S.symbolic:
        i, j = int(i), int(j)
    return (1 - a) * (1 - b) * texel(k, i, j) + a * (1 - b) * texel(k, i + 1, j) + (1 - a) * b * texel(k, i, j + 1) + a * b * texel(k, i + 1, j + 1)


def abstract(S, **k):
    """symbolically, texels are arbitrary (texel has its own contract)"""
    wrap = S.choice('wrap', WRAPS) if not S.symbolic else 'REPEAT'
    mp, texel, w, h, n = setup(S, wrap, **k)
    if S.symbolic:
        texel = lambda k, s, t: S.fn('texel', k, s, t)
        mp.texel = texel
    return mp, texel, w, h, n


@contract(P, [U + ':MIPMap.look_up', U + ':MIPMap.__triangle'], **O)
def isotropic(S):
    """a point without width is interpolated on the finest level; a width selects the level whose texels are as wide, with the two
    nearest levels mixed in proportion; beyond the coarsest level its only texel is returned"""
    mp, texel, w, h, n = abstract(S)
    s, t = S.real('s', -2, 2), S.real('t', -2, 2)
    how = S.choice('how', ['point', 'width'])
    if how == 'point':
        S.ensures('finest level', S.eq(mp.look_up([s, t]), inter(S, texel, w, h, 0, s, t)))
        return
    width = S.real('wd', .01, 2)
    S.requires(S.lt(S.num('0.0001'), width))
    got = mp.look_up([s, t, width])
    lv = n - 1 + S.log2(width) if S.symbolic else n - 1 + __import__('math').log(width, 2)
    if S.decide(S.le(n - 1, lv)):
        S.ensures('coarsest texel', S.eq(got, texel(n - 1, 0, 0)))
    elif S.decide(S.lt(lv, 0)):
        S.ensures('finest level', S.eq(got, inter(S, texel, w, h, 0, s, t)))
    else:
        k = S.floor(lv)
        d = lv - k
        k = k if S.symbolic else int(k)
        S.ensures('two levels mixed', S.eq(got, (1 - d) * inter(S, texel, w, h, k, s, t) + d * inter(S, texel, w, h, k + 1, s, t)))


# ------------------------------------------------------------------ elliptical weighting
def ellipse(S, w, h, d):
    """quadratic form, over texels of a level, of the ellipse spanned by two differentials, each axis widened by one texel"""
    ds0, dt0, ds1, dt1 = d[0] * w, d[1] * h, d[2] * w, d[3] * h
    a, b, c = dt0 * dt0 + dt1 * dt1 + 1, -2 * (ds0 * dt0 + ds1 * dt1), ds0 * ds0 + ds1 * ds1 + 1
    f = a * c - S.div(b * b, 4)
    return a, b, c, f


def weight(S, r2):
    """the filter at squared radius r2 < 1, by a table of 128 steps"""
    k = S.min(S.floor(r2 * 128), 127)
    return S.exp(S.div(-2 * k, 127)) - S.exp(S.num('-2'))


def ewa(S, texel, w, h, n, k, s, t, d):
    """concretely: the mean of the texels in the ellipse"""
    if k >= n:
        return texel(n - 1, 0, 0)
    a, b, c, f = ellipse(S, w(k), h(k), d)
    x, y = s * w(k) - .5, t * h(k) - .5
    r = int(max(a, c) ** .5 * 2 + 2)
    num = den = 0.
    for j in range(int(y) - r, int(y) + r + 1):
        for i in range(int(x) - r, int(x) + r + 1):
            p, q = i - x, j - y
            r2 = (a * p * p + b * p * q + c * q * q) / f
            if r2 < 1:
                v = weight(S, r2)
                num, den = num + v * texel(k, i, j), den + v
    return num / den


def within(S, mp, texel, w, h):
    """interpolation within a level (symbolically arbitrary; its own contract is isotropic)"""
    if not S.symbolic:
        return lambda k, s, t: inter(S, texel, w, h, k, s, t)
    tri = lambda k, s, t: S.fn('tri', k, s, t)
    mp._MIPMap__triangle = tri
    return tri


@contract(P, [U + ':MIPMap.look_up'], **SO)
def trilinear(S):
    """trilinear maps take the largest component of the two differentials as half the width"""
    mp, texel, w, h, n = abstract(S, trilinear=True)
    within(S, mp, texel, w, h)
    s, t = S.real('s', -1, 2), S.real('t', -1, 2)
    d = [S.real('d%d' % k, -.4, .4) for k in range(4)]
    S.ensures('width of the largest component', S.eq(mp.look_up([s, t] + list(d)), mp.look_up([s, t, 2 * S.max(*[S.abs(x) for x in d])])))


@contract(P, [U + ':MIPMap.look_up'], **O)
def anisotropic(S):
    """two differentials: the longer is the major axis, the other is lengthened until the ellipse is no more eccentric than allowed,
    and selects the two levels whose weighted means are mixed; without a minor axis the finest level is interpolated"""
    aniso = S.real('aniso', 1, 8)
    S.requires(S.le(1, aniso))
    mp, texel, w, h, n = abstract(S, max_aniso=aniso)
    tri = within(S, mp, texel, w, h)
    s, t = S.real('s', -1, 2), S.real('t', -1, 2)
    d = [S.real('d%d' % k, -.4, .4) for k in range(4)]
    if S.choice('flat', [False, True]):
        d[2] = d[3] = 0 if S.symbolic else 0.
    if S.symbolic:
        mp._MIPMap__EWA = lambda k, *a: S.fn('ewa', k, *a)
    got = mp.look_up([s, t] + list(d))
    one, two = d[0] * d[0] + d[1] * d[1], d[2] * d[2] + d[3] * d[3]
    if S.decide(S.lt(one, two)):
        one, two, d = two, one, d[2:] + d[:2]
    if S.decide(S.eq(two, 0)):
        S.ensures('finest level', S.eq(got, tri(0, s, t)))
        return
    major, minor = S.sqrt(one), S.sqrt(two)
    if S.decide(S.lt(minor * aniso, major)):
        f = S.div(major, minor * aniso)
        d, minor = d[:2] + [f * d[2], f * d[3]], minor * f
    lv = n - 1 + (S.log2(minor) if S.symbolic else __import__('math').log(minor, 2))
    if S.decide(S.lt(lv, 0)):
        lv = lv * 0
    k = S.floor(lv)
    x = lv - k
    k = k if S.symbolic else int(k)
    if S.symbolic:
        m0, m1 = [S.fn('ewa', k + i, s, t, *d) for i in (0, 1)]
    else:
        m0, m1 = [ewa(S, texel, w, h, n, k + i, s, t, d) for i in (0, 1)]
    S.ensures('two weighted means mixed', S.eq(got, (1 - x) * m0 + x * m1))


@contract(P, [U + ':MIPMap.__EWA'], symbolic_only=True, **O)
def weighted_mean(S):
    """the mean of exactly the texels in the ellipse, each weighted by the table at its squared radius; the rows and columns that are
    scanned contain the ellipse; beyond the coarsest level its only texel"""
    mp, texel, w, h, n = abstract(S)
    k, s, t = S.int('k', 0, 14), S.real('s'), S.real('t')
    d = [S.real('d%d' % i) for i in range(4)]
    lut = S.array('lut', 128)
    S.stub(U + ':MIPMap.weight_lut', lut)
    if S.decide(S.le(n, k)):
        S.ensures('coarsest texel', S.eq(mp._MIPMap__EWA(k, s, t, *d), texel(n - 1, 0, 0)))
        return
    a, b, c, f = ellipse(S, w(k), h(k), d)
    x, y = s * w(k) - S.num('0.5'), t * h(k) - S.num('0.5')
    inv = S.div(1, f)
    A, B, C = a * inv, b * inv, c * inv
    radius = lambda i, j: A * (i - x) * (i - x) + B * (i - x) * (j - y) + C * (j - y) * (j - y)
    e = d[0] * w(k), d[1] * h(k), d[2] * w(k), d[3] * h(k)
    S.lemma('discriminant', S.eq(f, 1 + e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3] + (e[0] * e[3] - e[1] * e[2]) * (e[0] * e[3] - e[1] * e[2])))
    S.lemma('an ellipse', S.le(1, f))
    sums = ['ret', 'sum_wt']
    state = {}

    def understood(cut, loc):
        from pyvc.sym import Unsupported
        if not all(v in loc for v in sums):
            raise Unsupported('sums not found')
        for v in cut.names:
            if v in loc and v in cut.stored and v not in cut.unbound and v not in sums + ['ss', 'tt', 'si', 'ti', 'r2', 'wt']:
                raise Unsupported('loop variable %s has no role' % v)

    def havoc(name):
        def g(loc, i):
            state[name] = (i, [S.fresh('%s_%s' % (name, v)) for v in sums])
            if name == 'col':
                p, q = i - x, state['row'][0] - y
                form = a * p * p + b * p * q + c * q * q
                S.lemma('square completed', S.eq(a * form, (a * p + b * q / 2) * (a * p + b * q / 2) + f * q * q))
                S.law('form nowhere negative', lambda a, X, f, q, F: S.Implies(S.And(S.le(1, a), S.le(1, f), S.eq(a * F, X * X + f * q * q)), S.le(0, F)),
                      a, a * p + b * q / 2, f, q, form)
                S.lemma('radius is the scaled form', S.eq(radius(i, state['row'][0]) * f, form))
                S.lemma('squared radius nowhere negative', S.le(0, radius(i, state['row'][0])))
            return dict(zip(sums, state[name][1]))
        return g

    def covers(what, span, axis):
        """no texel of the ellipse is outside the range scanned"""
        at = S.fresh_int('p'), S.fresh_int('q')
        u, v = at[0] - x, at[1] - y
        form = a * u * u + b * u * v + c * v * v
        g, G, X, z = (a, A, a * u + b * v / 2, v) if axis else (c, C, c * v + b * u / 2, u)
        lo, hi = span
        det = 4 * A * C - B * B
        S.lemma('determinant of the scaled form', S.eq(det * f, 4))
        S.lemma('positive', S.lt(0, det))
        hw = 2 * S.div(1, det) * S.sqrt(det * G)
        S.lemma('half width', S.eq(hw * hw, g))
        S.lemma('half width positive', S.lt(0, hw))
        S.lemma('square completed', S.eq(g * form, X * X + f * z * z))
        if S.decide(S.lt(form, f)):
            S.lemma('distance', S.lt(g * form, g * f))
            S.lemma('distance', S.lt(f * z * z, g * f))
            S.lemma('distance', S.lt(z * z, hw * hw))
            S.law('between the roots', lambda z, r: S.Implies(S.And(S.lt(z * z, r * r), S.lt(0, r)), S.And(S.lt(-r, z), S.lt(z, r))), z, hw)
            S.ensures(what + ' scanned contain the ellipse', S.And(S.le(lo, at[axis]), S.lt(at[axis], hi)))
            S.end_path()

    def rows(loc, j):
        understood(SUM[0], loc)
        if 'row' not in state:
            covers('rows', SUM[0].span, 1)
            S.ensures('sums start at nothing', S.And(*[S.eq(loc[v], 0) for v in sums]), 'inv')
        else:
            S.ensures('a row adds its columns', S.And(*[S.eq(loc[v], e) for v, e in zip(sums, state['col'][1])]), 'inv')

    def columns(loc, i):
        understood(SUM[1], loc)
        j = state['row'][0]
        if 'col' not in state:
            covers('columns', SUM[1].span, 0)
            S.ensures('columns continue the sums', S.And(*[S.eq(loc[v], e) for v, e in zip(sums, state['row'][1])]), 'inv')
            return
        i, old = state['col']
        r2 = radius(i, j)
        inside = S.decide(S.lt(r2, 1))
        wt = lut.at(S.min(S.floor(r2 * 128), 127)) if inside else 0
        S.ensures('weight of a texel', S.eq(loc['sum_wt'], old[1] + wt), 'inv')
        S.ensures('share of a texel', S.eq(loc['ret'], old[0] + (texel(k, i, j) * wt if inside else 0)), 'inv')
    SUM[0].use(S, havoc('row'), rows)
    SUM[1].use(S, havoc('col'), columns)
    got = mp._MIPMap__EWA(k, s, t, *d)
    if 'row' in state:
        num, den = state['row'][1]
        S.ensures('mean', S.eq(got * den, num))


# ------------------------------------------------------------------ construction
class Picture(object):
    """an image of unknown size whose sides are powers of two"""
    dtype = object

    def __init__(self, S, h, w):
        self.S, self.shape = S, (h, w)

    def __getitem__(self, i):
        return self.S.fn('img', *i)


@contract(P, [U + ':MIPMap.__init__'], symbolic_only=True, **O)
def pyramid(S):
    """an image whose sides are powers of two is the finest level; every further level has half the size (at least one) of the one
    below, down to one texel, and each of its texels is the mean of four texels of the one below"""
    m = S.mod(U)
    h, w = S.int('height', 1), S.int('width', 1)
    img = Picture(S, h, w)
    mp = m.MIPMap.__new__(m.MIPMap)
    mp.texel = lambda k, s, t: S.fn('texel', k, s, t)
    S.stub('pytracer.utility.utility:is_pow_2', lambda x: True)
    for x in (h, w):
        S.requires(S.le(0, S.log2(x)))      # true of every x >= 1
    made = []
    kept = {}
    empty = m.np.empty

    class Store(object):
        """the levels: the finest is the image, coarser ones have arbitrary sizes"""
        def __init__(self, n):
            self.n, self.items = n, []

        def __setitem__(self, k, v):
            S.ensures('a level of the map', S.And(S.le(0, k), S.lt(k, self.n)))
            self.items.append((k, v))

        def __getitem__(self, k):
            for j, v in reversed(self.items):
                if S.identical(j, k):
                    return v
            kept['v'], kept['u'], kept['k'] = S.fresh_int('v'), S.fresh_int('u'), k
            S.requires(S.And(S.le(1, kept['v']), S.le(1, kept['u'])))
            return Rec(shape=(kept['v'], kept['u']))

    def alloc(shape, dtype=None, **k):
        if isinstance(shape, (list, tuple)):
            g = Grid(shape[0], shape[1], lambda i, j: None)
            g.S = S
        else:
            g = Store(shape)
        made.append(g)
        return g
    S.stub(U + ':np.empty', alloc)
    cut = [None, None, None]

    def levels(loc, i):
        if cut[0] is None or getattr(cut[0], 'i', None) is None:
            st = made[0]
            S.ensures('levels start with the image', len(made) == 1 and len(st.items) == 1 and S.And(S.eq(st.items[0][0], 0)) and st.items[0][1] is img, 'inv')
            return
        k = cut[0].i
        st = made[0]
        S.ensures('one level made', len(made) == 2 and len(st.items) == 2 and S.eq(st.items[1][0], k) and st.items[1][1] is made[1], 'inv')
        below = (kept['v'], kept['u']) if 'k' in kept else (h, w)
        S.ensures('made from the level below', S.eq(kept['k'], k - 1) if 'k' in kept else S.eq(k, 1), 'inv')
        for x, y in zip(made[1].shape, below):
            half = y // 2
            S.ensures('half the size', S.eq(x, S.If(S.lt(half, 1), 1, half)), 'inv')

    def rows(loc, t):
        if getattr(cut[1], 'i', None) is None:
            S.ensures('rows start with the first', S.eq(t, 0), 'inv')
            S.ensures('all rows', S.eq(cut[1].span[1], made[1].shape[0]), 'inv')

    def columns(loc, s):
        k = getattr(cut[2], 'i', None)
        if k is None:
            S.ensures('columns start with the first', S.eq(s, 0), 'inv')
            S.ensures('all columns', S.eq(cut[2].span[1], made[1].shape[1]), 'inv')
        else:
            st = getattr(made[1], 'sets', [])
            t, l = cut[1].i, cut[0].i - 1
            S.ensures('one texel', len(st) == 1 and S.And(S.eq(st[0][0], t), S.eq(st[0][1], k)), 'inv')
            four = [S.fn('texel', l, 2 * k + a, 2 * t + b) for a in (0, 1) for b in (0, 1)]
            S.ensures('mean of four', S.eq(4 * st[0][2], four[0] + four[1] + four[2] + four[3]), 'inv')
    cut[:] = [BUILD[n] for n in PYR]
    for c, f in zip(cut, (levels, rows, columns)):
        c.i = None
        c.use(S, lambda loc, i: {}, f)
    mp.__init__(float, img, wrap=m.ImageWrap.CLAMP)
    S.ensures('number of levels', S.eq(mp.levels, 1 + S.floor(S.log2(S.max(h, w)))))
    S.ensures('size', S.And(S.eq(mp.width, w), S.eq(mp.height, h)))


class Weights(object):
    """first pixel and four weights of every new pixel (resample has its own contract)"""

    def __init__(self, S, name, n):
        self.S, self.name, self.n = S, name, n

    def first(self, i):
        return self.S.floor(self.S.fn(self.name + '_at', i))

    def wt(self, i, j):
        return self.S.fn(self.name + '_w%d' % j, i)

    def __getitem__(self, i):
        S = self.S
        S.ensures('weights of a new pixel', S.And(S.le(0, i), S.lt(i, self.n)))
        return [self.first(i)] + [self.wt(i, j) for j in range(4)]


@contract(P, [U + ':MIPMap.__init__'], symbolic_only=True, **O)
def resampled(S):
    """other images are resampled to the next powers of two, first along rows, then along columns: every new pixel is the weighted
    sum of four old ones, which repeat, are black or continue the edge outside"""
    m = S.mod(U)
    wrap = S.choice('wrap', WRAPS)
    h, w = S.int('height', 1), S.int('width', 1)
    H, W = S.int('new_height', 1), S.int('new_width', 1)
    S.requires(S.And(S.le(h, H), S.le(w, W)))
    img = Picture(S, h, w)
    mp = m.MIPMap.__new__(m.MIPMap)
    first = S.choice('sides', ['columns', 'rows'])
    S.stub('pytracer.utility.utility:is_pow_2', lambda x: x is not (w if first == 'columns' else h))
    S.stub('pytracer.utility.utility:next_pow_2', lambda x: W if x is w else H)
    ws, wt = Weights(S, 'ws', W), Weights(S, 'wt', H)
    asked = []

    def weights(o, n):
        asked.append((o, n))
        return ws if len(asked) == 1 else wt
    S.stub(U + ':MIPMap.resample', weights)
    state = dict(stage=0)

    class New(object):
        """the image in the making"""
        def __init__(self, h, w):
            self.shape, self.sets = (h, w), []

        def __setitem__(self, i, v):
            if isinstance(i[0], slice):
                S.ensures('a whole column', i[0] == slice(None) and S.identical(i[1], BUILD[3].i))
                state['column'] = v
                return
            S.ensures('a new pixel', S.And(S.le(0, i[0]), S.lt(i[0], self.shape[0]), S.le(0, i[1]), S.lt(i[1], self.shape[1])))
            self.sets.append((i[0], i[1], v))

        def __getitem__(self, i):
            if state['stage'] == 0:
                for t, s, v in reversed(self.sets):
                    if S.identical(t, i[0]) and S.identical(s, i[1]):
                        return v
            S.ensures('rows resampled before', state['stage'] == 1 and S.And(S.le(0, i[0]), S.lt(i[0], h), S.eq(i[1], BUILD[3].i)))
            return S.fn('mid', *i)

    class Column(object):
        def __init__(self, n):
            self.n, self.sets, self.of = n, [], None

        def __setitem__(self, i, v):
            self.sets.append((i, v))

        def __getitem__(self, i):
            for t, v in reversed(self.sets):
                if S.identical(t, i):
                    return v
            raise KeyError

        def copy(self):
            c = Column(self.n)
            c.of = self
            return c
    made = []

    def alloc(shape, dtype=None, **k):
        made.append(New(*shape) if isinstance(shape, (list, tuple)) else Column(shape))
        return made[-1]
    S.stub(U + ':np.empty', alloc)

    def old(i, n):
        """where pixel i of a side of n old pixels is, and whether it is there at all"""
        if wrap == 'REPEAT':
            return i % n, True
        if wrap == 'CLAMP':
            return S.max(0, S.min(i, n - 1)), True
        return i, S.And(S.le(0, i), S.lt(i, n))

    def total(wts, i, n, get):
        out = 0
        for j in range(4):
            k, ok = old(wts.first(i) + j, n)
            out = out + (wts.wt(i, j) * get(k) if S.decide(ok) else 0)
        return out
    SPAN = {0: ('rows', lambda: h), 1: ('new columns', lambda: W), 3: ('new columns', lambda: W), 4: ('new rows', lambda: H)}

    def enter(n):
        what, hi = SPAN[n]
        S.ensures(what, S.And(S.eq(BUILD[n].span[0], 0), S.eq(BUILD[n].span[1], hi())), 'inv')

    def check(n):
        def f(loc, i):
            c = BUILD[n]
            if c.i is None:
                if n == 3:
                    state['stage'] = 1
                return enter(n)
            if n == 1:
                t, s = BUILD[0].i, c.i
                last = made[0].sets[-1]
                S.ensures('only this pixel', S.And(*[S.And(S.eq(x[0], t), S.eq(x[1], s)) for x in made[0].sets]), 'inv')
                S.ensures('weighted sum along the row', S.eq(last[2], total(ws, s, w, lambda k: S.fn('img', t, k))), 'inv')
            if n == 4:
                s, t = BUILD[3].i, c.i
                col = made[1]
                S.ensures('only this pixel', S.And(*[S.eq(x[0], t) for x in col.sets]), 'inv')
                S.ensures('weighted sum along the column', S.eq(col.sets[-1][1], total(wt, t, h, lambda k: S.fn('mid', k, s))), 'inv')
            if n == 3:
                S.ensures('the column replaces the old one', state.get('column') is not None and (state['column'].of is made[1]), 'inv')
        return f
    for n in SPAN:
        BUILD[n].i = None
        BUILD[n].use(S, lambda loc, i: {}, check(n))

    def done(loc, i):
        S.ensures('weights of both directions', len(asked) == 2 and asked[0][0] is w and asked[0][1] is W and asked[1][0] is h and asked[1][1] is H)
        S.ensures('the finest level is the new image', len(made) == 3 and made[2].sets[-1][1] is made[0] and S.And(S.eq(made[0].shape[0], H), S.eq(made[0].shape[1], W)))
        S.ensures('size', S.And(S.eq(mp.width, W), S.eq(mp.height, H)))
        S.end_path()
    BUILD[PYR[0]].use(S, lambda loc, i: {}, done)
    mp.__init__(float, img, wrap=getattr(m.ImageWrap, wrap))
    S.ensures('levels are made', False)


def sinc(S, x):
    if S.decide(S.eq(x, 0)):
        return 1
    pi = S.get('pytracer:np').pi
    return S.div(S.sin(pi * x), pi * x)


def windowed(S, x, tau):
    """sinc windowed by sinc"""
    x = S.abs(x)
    if S.decide(S.lt(x, S.get('pytracer:EPS'))):
        return 1
    if S.decide(S.lt(1, x)):
        return 0
    return sinc(S, x * tau) * sinc(S, x)


@contract(P, [U + ':Lanczos'], **SO)
def lanczos(S):
    """the sinc windowed by the sinc of the relative distance, for numbers and for arrays; one at zero and nil beyond one"""
    m = S.mod(U)
    tau = S.real('tau', 1, 4)
    S.requires(S.lt(0, tau))
    xs = [S.real('x%d' % k, -1.5, 1.5) for k in range(2)]
    one = [m.Lanczos(x, tau) for x in xs]
    many = m.Lanczos(S.get('pytracer:np').array(xs), tau)
    for x, a, b in zip(xs, one, many):
        v = windowed(S, x, tau)
        S.ensures('number', S.eq(a, v))
        S.ensures('array', S.eq(b, v))


ROW = api.cut(U, 'MIPMap.resample', 0)


@contract(P, [U + ':MIPMap.resample'], **SO)
def weights(S):
    """the four old pixels nearest to the centre of a new pixel, weighted by the windowed sinc of half their distance, weights adding up to one"""
    m = S.mod(U)
    old, new = S.int('old', 1, 12), S.int('new', 1, 16)
    S.requires(S.le(old, new))
    half = S.num('0.5')

    def row(i):
        c = S.div((i + half) * old, new)
        k = S.floor(c - 3 * half)
        d = [S.div(k + j + half - c, 2) for j in range(4)]
        return k, [lz(x) for x in d]
    if S.symbolic:
        lz = lambda x: S.fn('lanczos', x)
        S.stub(U + ':Lanczos', lambda a, *r: m.np.array([lz(x) for x in a]))
        rows = {}

        class Table(object):
            def __getitem__(self, i):
                S.ensures('a new pixel', S.And(S.le(0, i), S.lt(i, new)))
                for k in rows:
                    if S.identical(k, i):
                        return rows[k]
                rows[i] = m.np.array([S.fresh() for j in range(5)])
                return rows[i]

        def alloc(shape, dtype=None, **k):
            S.ensures('five numbers per new pixel', S.And(S.eq(shape[0], new), S.eq(shape[1], 5)))
            return Table()
        S.stub(U + ':np.zeros', alloc)
        ROW.i = None

        def check(loc, i):
            if ROW.i is not None:
                S.ensures('one row', len(rows) == 1 and list(rows)[0] is not None and S.eq(list(rows)[0], ROW.i), 'inv')
                got = list(rows.values())[0]
                k, wt = row(ROW.i)
                S.ensures('first pixel', S.eq(got[0], k))
                for j in range(4):
                    S.ensures('normalised weight', S.eq(got[1 + j] * (wt[0] + wt[1] + wt[2] + wt[3]), wt[j]))
        ROW.use(S, lambda loc, i: {}, check)
        m.MIPMap.resample(old, new)
        return
    lz = lambda x: windowed(S, x, 2.)
    out = m.MIPMap.resample(old, new)
    S.ensures('five numbers per new pixel', tuple(out.shape) == (new, 5))
    for i in range(new):
        k, wt = row(i)
        S.ensures('first pixel', S.Or(S.eq(out[i][0], k), abs((i + .5) * old / new - 1.5 - round((i + .5) * old / new - 1.5)) < 1e-9))
        if out[i][0] == k:
            for j in range(4):
                S.ensures('normalised weight', S.eq(out[i][1 + j] * sum(wt), wt[j]))


@contract(P, [U + ':MIPMap.__init__'], concrete_only=True, n=1, bounded='the 128 entries, as floats', **SO)
def filter_table(S):
    """the Gaussian at 128 squared radii from 0 to 1, shifted to end in nil"""
    m = S.mod(U)
    np = S.get('pytracer:np')
    m.MIPMap.weight_lut = None
    m.MIPMap(float, np.array([[S.real('px', 0, 1)]]))
    lut = m.MIPMap.weight_lut
    S.ensures('size', len(lut) == 128)
    for k in range(128):
        S.ensures('value', S.eq(lut[k], S.exp(S.div(-2 * k, 127)) - S.exp(S.num('-2'))))


@contract(P, [U + ':MIPMap.__init__', U + ':MIPMap.texel'], concrete_only=True, n=60, bounded='images up to 6 by 6, random contents', **SO)
def built(S):
    """maps of numbers, colours and bytes: resampled to powers of two, then halved"""
    import numpy
    m = S.mod(U)
    R = S.get('pytracer.spectral:RGBSpectrum')
    kind = S.choice('kind', ['numbers', 'bytes', 'colours'])
    wrap = S.choice('wrap', WRAPS)
    h, w = S.int('h', 1, 6), S.int('w', 1, 6)
    chn = 3 if kind == 'colours' else 1
    px = numpy.array([[[S.real('p%d_%d_%d' % (t, s, c), 0, 1) for c in range(chn)] for s in range(w)] for t in range(h)])
    if kind == 'bytes':
        px = numpy.floor(px * 255)
        img = px[:, :, 0].astype('uint8')
    elif kind == 'numbers':
        img = px[:, :, 0].copy()
    else:
        img = numpy.empty((h, w), dtype=object)
        for t in range(h):
            for s in range(w):
                img[t, s] = R(list(px[t, s]))
    mp = m.MIPMap(R if kind == 'colours' else float, img, wrap=getattr(m.ImageWrap, wrap))
    H, W = [1 << (x - 1).bit_length() for x in (h, w)]

    def weights(old, new):
        out = []
        for i in range(new):
            c = (i + .5) * old / new
            k = numpy.floor(c - 1.5)
            d = [abs(k + j + .5 - c) / 2 for j in range(4)]
            wt = [1. if x < 1e-5 else 0. if x > 1 else numpy.sinc(2 * x) * numpy.sinc(x) for x in d]
            out.append([(int(k) + j, x / sum(wt)) for j, x in enumerate(wt)])
        return out

    def at(k, n):
        if wrap == 'REPEAT':
            return k % n
        if wrap == 'CLAMP':
            return min(max(k, 0), n - 1)
        return k if 0 <= k < n else None

    def resample(a, wts):
        out = []
        for r in wts:
            out.append(sum(x * a[at(k, len(a))] if at(k, len(a)) is not None else 0 * a[0] for k, x in r))
        return numpy.array(out)
    for c in range(chn):
        base = px[:, :, c]
        if (H, W) != (h, w):
            base = resample(base.T, weights(w, W)).T
            base = resample(base, weights(h, H))
            if kind == 'colours':
                base = numpy.clip(base, 0, None)
        o = Oracle(base, wrap)
        S.ensures('levels', mp.levels == len(o.p))
        S.ensures('size', (mp.height, mp.width) == (H, W))
        for k, l in enumerate(o.p):
            for t in range(l.shape[0]):
                for s in range(l.shape[1]):
                    v = mp.texel(k, s, t)
                    v = v[c] if kind == 'colours' else v
                    S.ensures('texel', S.eq(float(v), float(l[t, s])))


# ------------------------------------------------------------------ image textures
class Patch(object):
    """replaces module attributes in either mode"""

    def __init__(self, S, **k):
        self.S, self.k, self.old = S, k, {}

    def __enter__(self):
        for path, f in self.k.values():
            if self.S.symbolic:
                self.S.stub(path, f)
            else:
                mod, name = path.split(':')
                mod = self.S.mod(mod)
                self.old[mod, name] = getattr(mod, name)
                setattr(mod, name, f)

    def __exit__(self, *a):
        for (mod, name), f in self.old.items():
            setattr(mod, name, f)


@contract(P, [I + ':ImageTexture.__init__', I + ':ImageTexture.get_texture', I + ':ImageTexture.__convert__in__', I + ':ImageTexture.TexInfo.__eq__',
              I + ':ImageTexture.TexInfo.__hash__', I + ':ImageTexture.TexInfo.__ne__'], n=60, **SO)
def image_cache(S):
    """textures share the map of an image when file, filtering, wrapping, scale, exponent and stored type agree, and only then; the map
    is made of the picture, each pixel scaled and raised to the exponent (its luminance where numbers are stored), with the filtering and
    wrapping asked for; a file that cannot be read gives the constant"""
    m = S.mod(I)
    R = S.get('pytracer.spectral:RGBSpectrum')
    F = S.get('pytracer:FLOAT')
    np = S.get('pytracer:np')
    m.ImageTexture.textures = {}
    wraps = S.get(U + ':ImageWrap')
    h, w = S.choice('size', [(1, 1), (1, 2), (2, 1)])
    px = [[[S.real('p%d_%d_%d' % (t, s, c), .1, 1) for c in range(3)] for s in range(w)] for t in range(h)]
    for r in px:
        for p in r:
            for v in p:
                S.requires(S.lt(0, v))
    read, made = [], []
    broken = S.choice('readable', [True, False]) is False

    def reader(name):
        read.append(name)
        if broken:
            raise IOError(name)
        return np.array(px)

    class Made(object):
        def __init__(self, kind, img, *a, **k):
            names = ['trilinear', 'max_aniso', 'wrap']
            self.kind, self.img = kind, img
            self.opts = dict(zip(names, a), **k)
            made.append(self)
    base = dict(filename='a', trilinear=False, max_aniso=8., wrap=wraps.REPEAT, scale=1., gamma=1.)
    other = dict(filename='b', trilinear=True, max_aniso=4., wrap=wraps.CLAMP, scale=.5, gamma=2.)
    kinds = [R, F]
    if S.choice('first', ['base', 'other']) == 'other':
        base, other, kinds = other, base, kinds[::-1]
    differ = S.choice('differ', ['nothing', 'kind'] + sorted(base))
    second = dict(base)
    if differ in second:
        second[differ] = other[differ]
    k1, k2 = kinds[0], kinds[1 if differ == 'kind' else 0]
    info = lambda kind, d: m.ImageTexture.TexInfo(d['filename'], d['trilinear'], d['max_aniso'], d['wrap'], d['scale'], d['gamma'], kind)
    i1, i2 = info(k1, base), info(k2, second)
    S.ensures('settings equal when all agree and only then', (i1 == i2) is (differ == 'nothing') and (i1 != i2) is (differ != 'nothing'))
    S.ensures('equal settings hash alike', differ != 'nothing' or hash(i1) == hash(i2))
    alone = info(k2 if differ == 'kind' else kinds[1], dict(other, **({} if differ == 'kind' else {differ: base[differ]} if differ in base else {})))
    S.ensures('settings that agree in one only differ', not (i1 == alone))
    mapping = Rec()
    ret = S.get('pytracer:Spectrum')
    with Patch(S, a=('pytracer.utility.imageio:read_image', reader), b=(I + ':MIPMap', Made)):
        one = m.ImageTexture(ret, k1, mapping, **base)
        two = m.ImageTexture(ret, k2, mapping, **second)
    m.ImageTexture.textures = {}
    S.ensures('mapping kept', one.mapping is mapping and one.type_ret is ret and one.type_mem is k1)
    S.ensures('shared only when all agree', (one.mipmap is two.mipmap) == (differ == 'nothing') and len(made) == (1 if differ == 'nothing' else 2))
    S.ensures('read once per map', read == [base['filename'], second['filename']][:len(made)])
    for t, kind, par in ((one, k1, base), (two, k2, second)):
        mp = t.mipmap
        S.ensures('kind', mp.kind is kind)
        if broken:
            S.ensures('one texel', tuple(mp.img.shape[:2]) == (1, 1))
            v = mp.img[0, 0]
            want = S.pow(S.num(par['scale']), par['gamma'])
            S.ensures('constant', S.And(*[S.eq(x, want) for x in (list(v) if kind is R else [v])]))
            continue
        S.ensures('filtering and wrapping', all(mp.opts.get(n) == par[n] for n in ('trilinear', 'max_aniso', 'wrap')))
        S.ensures('size', tuple(mp.img.shape[:2]) == (h, w))
        for j in range(h):
            for i in range(w):
                v, p = mp.img[j, i], px[j][i]
                if kind is R:
                    S.ensures('colour', S.And(isinstance(v, R), *[S.eq(v[c], S.pow(par['scale'] * p[c], par['gamma'])) for c in range(3)]))
                else:
                    y = R(list(p)).y()
                    S.ensures('luminance', S.eq(v, S.pow(par['scale'] * y, par['gamma'])))


@contract(P, [I + ':ImageTexture.__call__', I + ':ImageTexture.__convert__out__'], **SO)
def image_texture(S):
    """the look-up of the map at the coordinates of the point, as a colour or a number"""
    m = S.mod(I)
    T = S.get('pytracer:Spectrum')
    R = S.get('pytracer.spectral:RGBSpectrum')
    F = S.get('pytracer:FLOAT')
    kind = S.choice('kind', ['colour', 'number'])
    c = [S.real('c%d' % k, 0, 1) for k in range(3)]
    dg, at, seen = Rec(), [S.real('at%d' % k) for k in range(6)], []
    val = R.create_from_list(list(c)) if kind == 'colour' else c[0]

    def mapping(d):
        S.ensures('coordinates of the point', d is dg)
        return at

    def look(a):
        seen.append(a)
        return val
    t = m.ImageTexture.__new__(m.ImageTexture)
    t.type_ret, t.type_mem = (T, R) if kind == 'colour' else (F, F)
    t.mapping, t.mipmap = mapping, Rec(look_up=look)
    v = t(dg)
    S.ensures('looked up at the coordinates', len(seen) == 1 and len(seen[0]) == 6 and S.And(*[S.eq(a, b) for a, b in zip(seen[0], at)]))
    if kind == 'colour':
        S.ensures('colour', S.And(isinstance(v, T), *[S.eq(v[k], c[k]) for k in range(3)]))
    else:
        S.ensures('number', S.eq(v, c[0]))
