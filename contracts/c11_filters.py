"""C11: reconstruction filters."""
from pyvc.api import contract

M = 'pytracer.filter.filter'
P = 'C11'
O = dict(div='assume', tol=1e-7, cancel=True, fork_ite=True)


def widths(S):
    return S.real('xw', .25, 6), S.real('yw', .25, 6)


def filt(S, kind):
    m = S.mod(M)
    w = widths(S)
    par = {}
    if kind == 'BoxFilter':
        f = m.BoxFilter(*w)
    elif kind == 'TriangleFilter':
        f = m.TriangleFilter(*w)
    elif kind == 'GaussianFilter':
        par['alpha'] = S.real('alpha', 0, 4)
        f = m.GaussianFilter(w[0], w[1], par['alpha'])
    elif kind == 'MitchellFilter':
        par['B'], par['C'] = S.real('B', 0, 1), S.real('C', 0, 1)
        f = m.MitchellFilter(par['B'], par['C'], *w)
    else:
        par['tau'] = S.real('tau', 1, 4)
        f = m.LanczosSincFilter(w[0], w[1], par['tau'])
    return f, w, par


KINDS = ['BoxFilter', 'TriangleFilter', 'GaussianFilter', 'MitchellFilter', 'LanczosSincFilter']


def spec1(S, kind, d, w, par):
    """one-dimensional factor at offset d for half width w"""
    a = d if S.decide(S.le(0, d)) else -d
    if kind == 'BoxFilter':
        return S.num(1)
    if kind == 'TriangleFilter':
        return S.max(0, w - a)
    if kind == 'GaussianFilter':
        return S.max(0, S.exp(-par['alpha'] * d * d) - S.exp(-par['alpha'] * w * w))
    if kind == 'MitchellFilter':
        x, B, C = 2 * S.div(a, w), par['B'], par['C']
        far = (-B - 6 * C) * x * x * x + (6 * B + 30 * C) * x * x + (-12 * B - 48 * C) * x + 8 * B + 24 * C
        near = (12 - 9 * B - 6 * C) * x * x * x + (-18 + 12 * B + 6 * C) * x * x + 6 - 2 * B
        return (far if S.decide(S.lt(w, 2 * a)) else near) / 6
    x = a * S.div(S.num(1), w)
    eps = S.get('pytracer:EPS')
    if S.decide(S.lt(x, eps)):
        return S.num(1)
    if S.decide(S.lt(1, x)):
        return S.num(0)
    sinc = S.get('numpy:sinc') if not S.symbolic else S.mod(M).np.sinc
    return sinc(x * par['tau']) * sinc(x)


def kinds(S):
    return S.choice('kind', KINDS)


@contract(P, [M + ':' + k + '.__call__' for k in KINDS], n=60, **O)
def value(S):
    """the documented separable profile at every offset of the support"""
    k = kinds(S)
    f, w, par = filt(S, k)
    x, y = S.real('x', -6, 6), S.real('y', -6, 6)
    S.requires(S.And(S.le(S.abs(x), w[0]), S.le(S.abs(y), w[1])))
    S.ensures('profile', S.eq(f(x, y), spec1(S, k, x, w[0], par) * spec1(S, k, y, w[1], par)))
    S.ensures('half widths', S.And(S.eq(f.xw, w[0]), S.eq(f.yw, w[1]), S.eq(f.xwInv * w[0], 1), S.eq(f.ywInv * w[1], 1)))


@contract(P, [M + ':' + k + '.__call__' for k in KINDS], n=60, **O)
def symmetric(S):
    """mirror symmetric in each coordinate"""
    k = kinds(S)
    f, w, par = filt(S, k)
    x, y = S.real('x', -6, 6), S.real('y', -6, 6)
    S.requires(S.And(S.le(S.abs(x), w[0]), S.le(S.abs(y), w[1])))
    v = f(x, y)
    S.ensures('mirrored in x', S.eq(f(-x, y), v))
    S.ensures('mirrored in y', S.eq(f(x, -y), v))


@contract(P, [M + ':TriangleFilter.__call__', M + ':GaussianFilter.__call__', M + ':LanczosSincFilter.__call__', M + ':BoxFilter.__call__'], n=60, **O)
def support(S):
    """non-negative (Lanczos aside) and nil beyond the half widths"""
    k = S.choice('kind', ['BoxFilter', 'TriangleFilter', 'GaussianFilter', 'LanczosSincFilter'])
    f, w, par = filt(S, k)
    x, y = S.real('x', -9, 9), S.real('y', -9, 9)
    out = S.Or(S.lt(w[0], S.abs(x)), S.lt(w[1], S.abs(y)))
    v = f(x, y)
    if k != 'BoxFilter':
        if k == 'GaussianFilter':
            a, s = par['alpha'], S.abs(x) - w[0]
            for d, h in ((x, w[0]), (y, w[1])):
                S.lemma('exponents ordered', S.Implies(S.lt(h, S.abs(d)), S.le(h * h, d * d)))
                S.lemma('and so scaled', S.Implies(S.lt(h, S.abs(d)), S.le(0, a * (d * d - h * h))))
                S.lemma('exponentials ordered', S.Implies(S.lt(h, S.abs(d)), S.le(S.exp(-a * d * d), S.exp(-a * h * h))))
        S.ensures('nil outside', S.Implies(out, S.eq(v, 0)))
    if k != 'LanczosSincFilter':
        S.ensures('non-negative', S.le(0, v))


@contract(P, [M + ':MitchellFilter.mitchell'], **O)
def mitchell(S):
    """continuous and smooth where its pieces meet, nil at the edge, weights of shifts by half the width sum to one"""
    f, w, par = filt(S, 'MitchellFilter')
    B, C = par['B'], par['C']
    m = f.mitchell
    S.ensures('centre', S.eq(m(S.num(0)), 1 - B / 3))
    S.ensures('joint', S.eq(m(S.num('0.5')), B / 6))
    S.ensures('edge', S.eq(m(S.num(1)), 0))
    t = S.real('t', 0, .5)
    S.requires(S.And(S.lt(0, t), S.lt(t, S.num('0.5'))))
    # samples at integer distances (the half width spans two): x, 1-x, 1+x, 2-x
    S.ensures('partition of unity', S.eq(m(t) + m(S.num('0.5') - t) + m(S.num('0.5') + t) + m(1 - t), 1))
    far, near = m(S.num('0.5') + t), m(S.num('0.5') - t)
    S.ensures('curvature bounded at the joint', S.le(S.abs(far + near - B / 3), 60 * t * t + 60 * t * t * t))


@contract(P, [M + ':' + k + '.__call__' for k in KINDS], n=60, bounded='arrays of at most 3 offsets', **O)
def arrays(S):
    """an array of offsets is weighted entry by entry and left unchanged"""
    k = kinds(S)
    np = S.get('pytracer:np')
    f, w, par = filt(S, k)
    n = S.choice('n', [1, 2, 3]) if not S.symbolic else 2
    xs = [S.real('x%d' % i, -6, 6) for i in range(n)]
    y = S.real('y', -6, 6)
    for x in xs:
        S.requires(S.le(S.abs(x), w[0]))
    S.requires(S.le(S.abs(y), w[1]))
    a = np.array(xs)
    each = [f(x, y) for x in xs]
    r = f(a, y)
    if k != 'BoxFilter':
        S.ensures('entry by entry', S.And(len(r) == n, *[S.eq(r[i], each[i]) for i in range(n)]))
    else:
        S.ensures('constant', S.eq(r, 1))
    S.ensures('argument unchanged', S.And(*[S.eq(a[i], xs[i]) for i in range(n)]))
