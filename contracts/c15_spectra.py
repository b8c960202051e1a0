"""C15: spectra: sample-wise algebra, colour conversion, sampled spectra."""
from pyvc.api import contract

M = 'pytracer.spectral.spectrum'
C, SS, RGB = M + ':CoefficientSpectrum', M + ':SampledSpectrum', M + ':RGBSpectrum'
P = 'C15'
N = 4


def coef(S, n, k=N, lo=0, hi=4):
    return S.mod(M).CoefficientSpectrum.create_from_list([S.real('%s%d' % (n, i), lo, hi) for i in range(k)])


def rgb(S, n, lo=0, hi=4):
    return S.mod(M).RGBSpectrum.create_from_list([S.real('%s%d' % (n, i), lo, hi) for i in range(3)])


def each(S, a, f):
    return S.And(*[S.eq(a[i], f(i)) for i in range(len(a))])


def lst(S, n, k, lo=None, hi=None):
    return [S.real('%s%d' % (n, i), lo, hi) for i in range(k)]


def kinds(S):
    """either representation (the algebra is inherited)"""
    m = S.mod(M)
    return S.choice('class', ['CoefficientSpectrum', 'RGBSpectrum'])


def make(S, cls, n, lo=0, hi=4):
    m = S.mod(M)
    k = 3 if cls == 'RGBSpectrum' else N
    return getattr(m, cls).create_from_list([S.real('%s%d' % (n, i), lo, hi) for i in range(k)])


@contract(P, [C, RGB], div='assume', tol=1e-9)
def algebra(S):
    """arithmetic is per sample, keeps the class and leaves the operands alone"""
    cls = kinds(S)
    m = S.mod(M)
    K = getattr(m, cls)
    a, b = make(S, cls, 'a'), make(S, cls, 'b', .25)
    t = S.real('t', .25, 3)
    A, B = [a[i] for i in range(len(a))], [b[i] for i in range(len(b))]
    for n, r, f in (('sum', a + b, lambda i: A[i] + B[i]), ('difference', a - b, lambda i: A[i] - B[i]), ('product', a * b, lambda i: A[i] * B[i]),
                    ('quotient', a / b, lambda i: S.div(A[i], B[i])), ('scaled', a * t, lambda i: A[i] * t),
                    ('scaled from the left', t * a, lambda i: A[i] * t), ('divided', a / t, lambda i: S.div(A[i], t)),
                    ('negated', -a, lambda i: -A[i]), ('reciprocal', 1. / b, lambda i: S.div(1, B[i]))):
        S.ensures(n, S.And(type(r) is K, each(S, r, f)))
    S.ensures('operands unchanged', S.And(each(S, a, lambda i: A[i]), each(S, b, lambda i: B[i])))
    c = a.copy()
    c += b
    c *= t
    S.ensures('in place on a copy', S.And(each(S, c, lambda i: (A[i] + B[i]) * t), each(S, a, lambda i: A[i])))
    S.ensures('number of samples', a.n_samples == len(A))
    S.ensures('samples', S.And(*[S.eq(a.c[i], A[i]) for i in range(len(A))]))


@contract(P, [C + '.sqrt', C + '.exp', C + '.pow', C + '.lerp', C + '.clip', C + '.is_black', C + '.has_nans'], tol=1e-9)
def functions(S):
    """elementary functions, interpolation, clamping and the black test are per sample"""
    cls = kinds(S)
    m = S.mod(M)
    K = getattr(m, cls)
    a, b = make(S, cls, 'a'), make(S, cls, 'b', -4)
    A, B = [a[i] for i in range(len(a))], [b[i] for i in range(len(b))]
    t, e = S.real('t', 0, 1), S.real('e', .25, 3)
    lo, hi = S.real('lo', -2, 1), S.real('hi', 1, 3)
    eps = S.get('pytracer:EPS')
    S.ensures('square root', S.And(type(a.sqrt()) is K, each(S, a.sqrt(), lambda i: S.sqrt(A[i]))))
    S.ensures('exponential', S.And(type(b.exp()) is K, each(S, b.exp(), lambda i: S.exp(B[i]))))
    S.ensures('power', S.And(type(a.pow(e)) is K, each(S, a.pow(e), lambda i: S.pow(A[i], e))))
    l = a.lerp(t, b)
    S.ensures('interpolation', S.And(type(l) is K, each(S, l, lambda i: (1 - t) * A[i] + t * B[i])))
    c = b.clip(lo, hi)
    S.ensures('clamped', S.And(*[S.eq(c[i], S.min(S.max(B[i], lo), hi)) for i in range(len(B))]))
    c = b.clip()
    S.ensures('clamped at zero', S.And(*[S.eq(c[i], S.max(B[i], 0)) for i in range(len(B))]))
    S.ensures('black exactly when every sample is negligible', S.Iff(a.is_black(), S.And(*[S.lt(x, eps) for x in A])))
    S.ensures('finite samples are no NaNs', S.Not(a.has_nans()))
    S.ensures('equality', S.And(a == a.copy(), S.Iff(a == b, S.And(*[S.eq(x, y) for x, y in zip(A, B)])), S.Iff(a != b, S.Not(a == b))))
    S.ensures('arguments unchanged', S.And(each(S, a, lambda i: A[i]), each(S, b, lambda i: B[i])))


@contract(P, [C + '.create', C + '.create_from_array', C + '.create_from_list', RGB + '.create', RGB + '.create_from_array',
              RGB + '.create_from_list', RGB + '.from_rgb', RGB + '.to_rgb'], tol=1e-9, n=40)
def creation(S):
    """spectra are made of the given values and share no storage with them"""
    m = S.mod(M)
    np = S.get('pytracer:np')
    v = lst(S, 'v', 3, 0, 4)
    K = getattr(m, S.choice('class', ['CoefficientSpectrum', 'RGBSpectrum']))
    src = {'list': lambda: list(v), 'array': lambda: np.array(v), 'spectrum': lambda: m.RGBSpectrum.create_from_list(list(v))}
    how = S.choice('how', ['list', 'array', 'spectrum'])
    x = src[how]()
    r = K.create(x)
    made = [('create', r)]
    if how == 'list':
        made.append(('create_from_list', K.create_from_list(x)))
    else:
        made.append(('create_from_array', K.create_from_array(x)))
    if K is m.RGBSpectrum:
        made.append(('from_rgb', K.from_rgb(x)))
        made.append(('to_rgb', r.to_rgb()))
    for n, s in made:
        S.ensures(n, S.And(type(s) is K, len(s) == 3, each(S, s, lambda i: v[i])))
    keep = [x[i] for i in range(3)]
    for n, s in made:
        s[0] = s[0] + 1
        s *= 2.
        S.ensures(n + ' does not share storage', S.And(*[S.eq(x[i], keep[i]) for i in range(3)]))
    S.ensures('nor with each other', S.And(*[S.eq(s[2], 2 * v[2]) for n, s in made]))
    S.ensures('uniform spectrum', S.And(*[S.eq(m.RGBSpectrum(v[0])[i], v[0]) for i in range(3)]))
    S.ensures('black by default', S.And(*[S.eq(m.RGBSpectrum()[i], 0) for i in range(3)]))
    g = m.CoefficientSpectrum(5, v[1])
    S.ensures('constant', S.And(len(g) == 5, each(S, g, lambda i: v[1])))


@contract(P, [M + ':xyz2rgb', M + ':rgb2xyz', RGB + '.from_xyz', RGB + '.to_xyz', RGB + '.y'], tol=1e-9)
def colour(S):
    """conversion between RGB and XYZ: linear, mutually inverse to the precision of the standard matrices, luminance is Y"""
    m = S.mod(M)
    c, d = lst(S, 'c', 3, 0, 1), lst(S, 'd', 3, 0, 1)
    t = S.real('t', 0, 2)
    for n, f, g in (('rgb', m.xyz2rgb, m.rgb2xyz), ('xyz', m.rgb2xyz, m.xyz2rgb)):
        r = g(f(c))
        S.ensures(n + ' and back', S.And(*[S.between(-1e-5, r[i] - c[i], 1e-5) for i in range(3)]))
        q = f([c[i] + t * d[i] for i in range(3)])
        S.ensures(n + ' linear', S.And(*[S.eq(q[i], f(c)[i] + t * f(d)[i]) for i in range(3)]))
    s = m.RGBSpectrum.create_from_list(list(c))
    x = s.to_xyz()
    S.ensures('XYZ of an RGB spectrum', S.And(len(x) == 3, *[S.eq(x[i], m.rgb2xyz(c)[i]) for i in range(3)]))
    S.ensures('luminance is Y', S.eq(s.y(), x[1]))
    S.ensures('white has unit luminance', S.between(.999, m.RGBSpectrum(1.).y(), 1.001))
    b = m.RGBSpectrum.from_xyz(c)
    S.ensures('from XYZ', S.And(type(b) is m.RGBSpectrum, *[S.eq(b[i], m.xyz2rgb(c)[i]) for i in range(3)]))
    S.ensures('the sRGB primaries matrix', S.And(S.eq(m.rgb2xyz([1., 0., 0.])[0], S.num('0.412453')), S.eq(m.rgb2xyz([0., 1., 0.])[1], S.num('0.715160')),
                                                 S.eq(m.rgb2xyz([0., 0., 1.])[2], S.num('0.950227'))))


# ------------------------------------------------------------------ sampled spectra
def primitive(S, lam, v, x):
    """integral of the interpolated curve from the first wavelength (constant beyond both ends)"""
    n = len(lam)
    if S.decide(S.le(x, lam[0])):
        return v[0] * (x - lam[0])
    r = S.num(0)
    for k in range(n - 1):
        if S.decide(S.le(x, lam[k + 1])):
            h = lam[k + 1] - lam[k]
            f = v[k] + S.div((x - lam[k]) * (v[k + 1] - v[k]), h)
            return r + (x - lam[k]) * (v[k] + f) / 2
        r = r + (lam[k + 1] - lam[k]) * (v[k] + v[k + 1]) / 2
    return r + v[n - 1] * (x - lam[n - 1])


def curve(S, n, maxgap=3):
    lam, v = [], []
    for k in range(n):
        g = S.real('g%d' % k, .25 if not S.symbolic else None, maxgap if not S.symbolic else None)
        if k and S.symbolic:
            S.requires(S.lt(0, g))
        lam.append(g if not k else lam[-1] + g)
        v.append(S.real('v%d' % k, 0, 5 if not S.symbolic else None))
    return lam, v


@contract(P, SS + '.average_spectrum_samples', cancel=True, div='assume', tol=1e-6, weight=3,
          bounded='curves of at most 3 points (every value and interval); random curves of up to 9 points on the real code')
def average(S):
    """the mean over the interval of the piecewise linear curve, constant beyond its ends; the curve is left unchanged"""
    m = S.mod(M)
    n = S.choice('n', [1, 2, 3]) if S.symbolic else S.int('n', 1, 9)
    lam, v = curve(S, n)
    a = S.real('a', -1 if not S.symbolic else None, 12 if not S.symbolic else None)
    w = S.real('w', .25 if not S.symbolic else None, 9 if not S.symbolic else None)
    S.requires(S.lt(0, w))
    l0, v0 = list(lam), list(v)
    r = m.SampledSpectrum.average_spectrum_samples(lam, v, a, a + w)
    S.ensures('mean of the curve', S.eq(r * w, primitive(S, l0, v0, a + w) - primitive(S, l0, v0, a)))
    S.ensures('curve unchanged', S.And(*[S.And(S.eq(lam[i], l0[i]), S.eq(v[i], v0[i])) for i in range(n)]))


@contract(P, [SS + '.from_sampled'], tol=1e-6, n=60)
def from_sampled(S):
    """sample i is the average of the curve through the given points, in any order, over the i-th of 30 equal bins of 400..700 nm"""
    m = S.mod(M)
    k = S.choice('k', [1, 2, 3])
    lam, v = lst(S, 'l', k, 380, 720), lst(S, 'v', k, 0, 4)
    if not S.symbolic:
        S.requires(len(set(lam)) == k)
        if S.choice('ints', [0, 1]):
            lam, v = [int(x) for x in lam], [int(x) for x in v]
            S.requires(len(set(lam)) == k)
    for i in range(k):
        for j in range(i):
            S.requires(S.ne(lam[i], lam[j]))
    l0, v0 = list(lam), list(v)
    order = sorted(range(k), key=lambda i: lam[i]) if not S.symbolic else None
    if S.symbolic:
        order = []
        for i in range(k):
            p = 0
            while p < len(order) and S.decide(S.lt(lam[order[p]], lam[i])):
                p += 1
            order.insert(p, i)
        calls = []

        def avg(l, w, a, b):
            x = S.fresh('avg')
            calls.append(([l[i] for i in range(k)], [w[i] for i in range(k)], a, b, x, len(l), len(w)))
            return x
        S.stub(SS + '.average_spectrum_samples', avg)
    r = m.SampledSpectrum.from_sampled(lam, v)
    S.ensures('thirty samples', S.And(len(r) == 30, type(r) is m.SampledSpectrum))
    if S.symbolic:
        S.ensures('one average per sample', len(calls) == 30)
        for i, (l, w, a, b, x, n1, n2) in enumerate(calls):
            S.ensures('the curve through the points', S.And(n1 == k, n2 == k, *[S.And(S.eq(l[j], l0[order[j]]), S.eq(w[j], v0[order[j]])) for j in range(k)]))
            S.ensures('its bin', S.And(S.eq(a, 400 + 10 * i), S.eq(b, 400 + 10 * (i + 1))))
            S.ensures('its value', S.eq(r[i], x))
    else:
        for i in range(30):
            l, w = [float(l0[o]) for o in order], [float(v0[o]) for o in order]
            S.ensures('average over the bin', S.eq(r[i] * 10, primitive(S, l, w, 410. + 10 * i) - primitive(S, l, w, 400. + 10 * i)))
    S.ensures('arguments unchanged', S.And(*[S.And(S.eq(lam[i], l0[i]), S.eq(v[i], v0[i])) for i in range(k)]))


BASIS = ('White', 'Cyan', 'Magenta', 'Yellow', 'Red', 'Green', 'Blue')


class Keep(object):
    """restores the class attributes set by init"""

    def __init__(self, S):
        self.K = S.mod(M).SampledSpectrum
        self.names = ['X', 'Y', 'Z'] + ['rgb%s2Spect%s' % (t, b) for t in ('Refl', 'Illum') for b in BASIS]
        self.old = {n: getattr(self.K, n) for n in self.names}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n in self.names:
            setattr(self.K, n, self.old[n])


@contract(P, SS + '.from_rgb', tol=1e-9, n=60)
def sampled_from_rgb(S):
    """Smits' decomposition: the least component times white, the middle excess times the secondary colour that lacks the least
    component, the largest excess times its primary; scaled and clamped at zero"""
    m = S.mod(M)
    K = m.SampledSpectrum
    with Keep(S):
        tp = S.choice('type', ['Refl', 'Illum'])
        base = {}
        for t in ('Refl', 'Illum'):
            for b in BASIS:
                x = S.real('%s%s' % (t, b), -1, 1)
                base[t, b] = x
                setattr(K, 'rgb%s2Spect%s' % (t, b), K([x] * 30))
        c = lst(S, 'c', 3, 0, 1)
        arg = list(c)
        r = K.from_rgb(arg, m.SpectrumType.REFLECTANCE if tp == 'Refl' else m.SpectrumType.ILLUMINANT)
        o = []
        for i in range(3):
            p = 0
            while p < len(o) and S.decide(S.le(c[o[p]], c[i])):
                p += 1
            o.insert(p, i)
        lo, me, hi = o
        B = lambda n: base[tp, n]
        e = c[lo] * B('White') + (c[me] - c[lo]) * B(('Cyan', 'Magenta', 'Yellow')[lo]) + (c[hi] - c[me]) * B(('Red', 'Green', 'Blue')[hi])
        e = e * S.num('0.94' if tp == 'Refl' else '0.86445')
        S.ensures('thirty samples', S.And(len(r) == 30, type(r) is K))
        S.ensures('decomposition', S.And(*[S.eq(r[i], S.max(e, 0)) for i in (0, 13, 29)]))
        S.ensures('arguments unchanged', S.And(*[S.eq(arg[i], c[i]) for i in range(3)]))
        S.ensures('basis unchanged', S.And(*[S.eq(getattr(K, 'rgb%s2Spect%s' % k)[7], x) for k, x in base.items()]))


@contract(P, [SS + '.init', RGB + '.init'], n=1)
def tables(S):
    """sample i of each basis table is the average of the measured curve of that name over the i-th bin"""
    m = S.mod(M)
    K = m.SampledSpectrum
    D = S.mod('pytracer.data.spectral')
    with Keep(S) as kp:
        calls = {}
        real = K.average_spectrum_samples
        vals = {}

        def num(x):
            return [k for k in list(range(400, 701, 10)) + [None] if k is None or S.decide(S.between(k - 1e-6, x, k + 1e-6))][0]
        if S.symbolic:
            def avg(l, w, a, b):
                key = (id(l), id(w), num(a), num(b))
                if key not in vals:
                    vals[key] = (S.fresh('avg'), l, w)
                return vals[key][0]
            S.stub(SS + '.average_spectrum_samples', avg)
        else:
            avg = real
        who = S.choice('who', ['SampledSpectrum', 'RGBSpectrum'])
        getattr(m, who).init()
        for n in kp.names:
            src = {'X': D.CIE_X, 'Y': D.CIE_Y, 'Z': D.CIE_Z}.get(n)
            lam = D.CIE_LAMBDA
            if src is None:
                src, lam = getattr(D, 'RGB' + n[3:]), D.RGB2SpectLambda
            t = getattr(K, n)
            S.ensures(n + ' has thirty samples', len(t) == 30)
            for i in range(30):
                S.ensures(n, S.eq(t[i], avg(lam, src, S.num(400 + 10 * i), S.num(410 + 10 * i))))


@contract(P, [SS + '.y', SS + '.to_xyz', SS + '.to_rgb', SS + '.from_xyz'], tol=1e-9, n=60)
def sampled_to_colour(S):
    """colour of a sampled spectrum: matching curves integrated over the samples, normalised by the integral of Y"""
    m = S.mod(M)
    K = m.SampledSpectrum
    with Keep(S):
        n = 30
        z = [S.real('z%d' % k, 0, 1) for k in range(3)]
        for k, c in enumerate('XYZ'):
            setattr(K, c, K([z[k] + k * i for i in range(n)]))
        a, b = S.real('sa', 0, 1), S.real('sb', 0, 1)
        s = K([a + b * i for i in range(n)])
        k = S.div(300, S.get('pytracer.data.spectral:CIE_Y_INTEGRAL') * 30)
        e = [k * sum((z[j] + j * i) * (a + b * i) for i in range(n)) for j in range(3)]
        x = s.to_xyz()
        S.ensures('XYZ', S.And(len(x) == 3, *[S.eq(x[j], e[j]) for j in range(3)]))
        S.ensures('luminance is Y', S.eq(s.y(), e[1]))
        r = s.to_rgb()
        S.ensures('RGB', S.And(type(r) is m.RGBSpectrum, *[S.eq(r[j], m.xyz2rgb(e)[j]) for j in range(3)]))
        S.ensures('unchanged', S.And(S.eq(s[3], a + b * 3), len(s) == n))
        got = []
        if S.symbolic:
            S.stub(SS + '.from_rgb', classmethod(lambda cls, c, tp=None: got.append((c, tp)) or 'made').__func__)
            q = K.from_xyz(z, m.SpectrumType.ILLUMINANT)
            S.ensures('from XYZ by way of RGB', S.And(q == 'made', len(got) == 1, got[0][1] is m.SpectrumType.ILLUMINANT,
                                                      *[S.eq(got[0][0][j], m.xyz2rgb(z)[j]) for j in range(3)]))
