"""C18: participating media: phase functions, volume regions and their placement, optical thickness, aggregates, measured data."""
from pyvc import api
from pyvc.api import contract
from contracts.c15_spectra import rgb
from contracts.c17_lights import placed, partial, same, lin, Rec, Units

V = 'pytracer.volume.volume'
U = 'pytracer.volume.utility'
B = 'pytracer.volume.bssrdf'
G = 'pytracer.geometry'
P = 'C18'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)


def point_in(S, t, p):
    return [sum(t[i, j] * p[j] for j in range(3)) + t[i, 3] for i in range(3)]


def colour(S, get):
    from contracts.c15_spectra import M
    return S.mod(M).RGBSpectrum.create_from_list([get(k) for k in range(3)])


def each(S, a, f):
    return S.And(*[S.eq(a[k], f(k)) for k in range(3)])


# ------------------------------------------------------------------ phase functions
PHASES = ('isotrophic', 'rayleigh', 'mie_hazy', 'mie_murky', 'hg', 'schlick')


def phase(S, n, a, b, g):
    f = S.get(U + ':phase_' + n)
    return f(a, b, g) if n in ('hg', 'schlick') else f(a, b)


@contract(P, [U + ':phase_' + n for n in PHASES], **O)
def phases(S):
    """phase functions depend on the angle only, are symmetric and integrate to one over the sphere"""
    n = S.choice('phase', list(PHASES))
    g = S.real('g', -.7, .7)
    gv = S.mod(G)
    c = S.real('c', -1, 1)
    if S.symbolic:
        a, b = S.vec('a'), S.vec('b')
        c = S.dot(a, b)
    else:
        a = gv.normalize(S.vec('a', .5, 1))
        v = gv.normalize(gv.Vector(a.y, -a.x, 0.))
        s = S.sqrt(1 - c * c)
        b = gv.Vector(*[a[i] * c + v[i] * s for i in range(3)])
    S.requires(S.And(S.le(-1, c), S.le(c, 1), S.lt(-1, g), S.lt(g, 1)))
    k = S.num('1.55') * g - S.num('.55') * g * g * g
    S.requires(S.And(S.lt(-1, k), S.lt(k, 1)))
    d = 1 + g * g - 2 * g * c
    if S.symbolic:
        S.lemma('denominator', S.lt(0, d))
        S.lemma('denominator of Schlick', S.lt(0, 1 - k * c))
    sa, sb = S.snap(a), S.snap(b)
    p = phase(S, n, a, b, g)
    h = S.div(1 + c, 2)
    four = 4 * S.pi
    if n == 'isotrophic':
        S.ensures('value', S.eq(p * four, 1))
    elif n == 'rayleigh':
        S.ensures('value', S.eq(p * four, S.num('.75') * (1 + c * c)))
    elif n == 'mie_hazy':
        S.ensures('value', S.eq(p * four, S.num('.5') + S.num('4.5') * S.pow(h, 8)))
    elif n == 'mie_murky':
        S.ensures('value', S.eq(p * four, S.num('.5') + S.num('16.5') * S.pow(h, 32)))
    elif n == 'hg':
        S.ensures('value', S.eq(p * four * d * S.sqrt(d), 1 - g * g))
    else:
        S.ensures('value', S.eq(p * four * (1 - k * c) * (1 - k * c), 1 - k * k))
    S.ensures('not negative', S.le(0, p))
    S.ensures('symmetric', S.eq(phase(S, n, b, a, g), p))
    S.ensures('directions unchanged', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))


@contract(P, [U + ':phase_' + n for n in PHASES], **O)
def normalised(S):
    """the integral over the sphere, 2 pi times that over the cosine, is one (by the antiderivative)"""
    n = S.choice('phase', list(PHASES))
    g = S.real('g', -.7, .7)
    k = S.num('1.55') * g - S.num('.55') * g * g * g
    gv = S.mod(G)
    S.requires(S.And(S.lt(-1, g), S.lt(g, 1), S.lt(-1, k), S.lt(k, 1)))

    def p(c):
        return phase(S, n, gv.Vector(0., 0., 1.), gv.Vector(0., 0., c), g)
    if not S.symbolic:
        m = 2000
        x = [-1 + 2. * i / m for i in range(m + 1)]
        t = sum(p(x[i]) * (1 if i in (0, m) else 4 if i % 2 else 2) for i in range(m + 1)) * (2. / m) / 3
        S.ensures('integrates to one', abs(t * 2 * S.pi - 1) < 1e-6)
        return
    if n in ('hg', 'schlick'):
        S.requires(S.Not(S.eq(g, 0)))
        S.requires(S.Not(S.eq(k, 0)))
    c = S.real('c', -1, 1)

    def F(c):
        h = S.div(1 + c, 2)
        if n == 'isotrophic':
            return S.div(c, 2)
        if n == 'rayleigh':
            return S.div(3 * c + c * c * c, 8)
        if n == 'mie_hazy':
            return S.div(c, 4) + S.div(S.num('4.5') * S.pow(h, 9), 9)
        if n == 'mie_murky':
            return S.div(c, 4) + S.div(S.num('16.5') * S.pow(h, 33), 33)
        if n == 'schlick':
            return S.div(1 - k * k, 2 * k * (1 - k * c))
        d = 1 + g * g - 2 * g * c
        return S.div(1 - g * g, 2 * g * S.sqrt(d))
    if n == 'hg':
        d = 1 + g * g - 2 * g * c
        S.lemma('denominator', S.lt(0, d))
        r = S.sqrt(d)
        S.requires(S.And(S.lt(0, r), S.eq(r * r, d)))
        v = p(c)
        S.ensures('antiderivative', S.eq(S.diff(F(c), c), v * 2 * S.pi))
        S.ensures('integrates to one', S.eq(S.div(1 - g * g, 2 * g) * (S.div(1, 1 - g) - S.div(1, 1 + g)), 1))
        S.ensures('roots at the ends', S.And(S.eq((1 - g) * (1 - g), 1 + g * g - 2 * g), S.eq((1 + g) * (1 + g), 1 + g * g + 2 * g), S.lt(0, 1 - g), S.lt(0, 1 + g)))
        return
    if n == 'schlick':
        S.lemma('denominator of Schlick', S.lt(0, 1 - k * c))
    S.ensures('antiderivative', S.eq(S.diff(F(c), c), p(c) * 2 * S.pi))
    S.ensures('integrates to one', S.eq(F(S.num(1)) - F(S.num(-1)), 1))
    if n == 'schlick':
        return


# ------------------------------------------------------------------ regions
def extent(S, asked):
    g = S.mod(G)

    class Extent(g.BBox):
        def intersect_p(self, ray):
            asked.append(ray)
            return [hit, t0, t1]
    hit = S.choice('hit', [True, False])
    t0, t1 = S.real('t0', 0, 2), S.real('t1', 2, 5)
    e = Extent()
    e.pMin, e.pMax = S.point('lo', -3, -1), S.point('hi', 1, 3)
    for i in range(3):
        S.requires(S.lt(e.pMin[i], e.pMax[i]))
    return e, (hit, t0, t1)


def inside(S, e, p):
    if not S.symbolic:
        S.requires(min(abs(p[i] - q[i]) for i in range(3) for q in (e.pMin, e.pMax)) > 1e-6)
    return S.And(*[S.And(S.le(e.pMin[i], p[i]), S.le(p[i], e.pMax[i])) for i in range(3)])


def places(S, r, e, asked, want, t):
    """extent carried to the world, rays carried to the extent"""
    b, ref = r.world_bound(), t(e)
    S.ensures('bound is that of the placed extent', S.And(same(S, b.pMin, ref.pMin), same(S, b.pMax, ref.pMax)))
    g = S.mod(G)
    o, d = S.point('ro', -4, 4), S.vec('rd', -2, 2)
    mint, maxt, time = S.real('mint', 0, 1), S.real('maxt', 1, 9), S.real('rtime', 0, 1)
    ray = g.Ray(o, d, mint, maxt, 0, time)
    so, sd = S.snap(o), S.snap(d)
    del asked[:]
    out = r.intersect_p(ray)
    S.ensures('what the extent answers', S.And(bool(out[0]) is want[0], len(out) == 3, S.Or(not want[0], S.And(S.eq(out[1], want[1]), S.eq(out[2], want[2])))))
    S.ensures('asked about one ray', len(asked) == 1)
    a = asked[0]
    S.ensures('ray carried to the volume', S.And(same(S, a.o, point_in(S, t.m_inv, o)), same(S, a.d, lin(t.m_inv, d)), S.eq(a.mint, mint), S.eq(a.maxt, maxt)))
    S.ensures('ray unchanged', S.And(S.unchanged(ray.o, so), S.unchanged(ray.d, sd), S.eq(ray.mint, mint), S.eq(ray.maxt, maxt)))


def media(S):
    return rgb(S, 'A'), rgb(S, 'Sc'), S.real('g', -.7, .7), rgb(S, 'L')


@contract(P, [V + ':HomogeneousVolumeDensity.' + n for n in ('__init__', 'world_bound', 'intersect_p', 'sigma_a', 'sigma_s', 'sigma_t', 'lve', 'p', 'tau')], **O)
def homogeneous(S):
    A, Sc, g, Le = media(S)
    asked = []
    e, want = extent(S, asked)
    t = placed(S)
    r = S.mod(V).HomogeneousVolumeDensity(A, Sc, g, Le, e, t)
    part = S.choice('part', ['coefficients', 'phase', 'place', 'thickness'])
    w = S.vec('w', -1, 1)
    if part == 'place':
        places(S, r, e, asked, want, t)
        return
    if part == 'thickness':
        o, d = S.point('o', -2, 2), S.vec('d', -1, 1)
        ray = S.mod(G).Ray(o, d, S.real('m0', 0, 1), S.real('m1', 1, 9))
        out = r.tau(ray)
        dt = want[2] - want[1]
        S.requires(S.le(0, dt))
        for k in range(3):
            if want[0]:
                S.requires(S.And(S.le(0, A[k]), S.le(0, Sc[k])))
                s = A[k] + Sc[k]
                S.ensures('length of the segment times the attenuation', S.eq(out[k] * out[k], dt * dt * S.dot(d, d) * s * s))
                S.ensures('thickness is not negative', S.le(0, out[k]))
            else:
                S.ensures('nothing outside', S.eq(out[k], 0))
        return
    p = S.point('p', -3, 3)
    sp, sa, ss = S.snap(p), S.snap(A), S.snap(Sc)
    q = point_in(S, t.m_inv, p)
    i = inside(S, e, q)
    time = S.real('time', 0, 1)
    if part == 'phase':
        wp = S.vec('wp', -1, 1)
        dd = 1 + g * g - 2 * g * S.dot(w, wp)
        S.requires(S.lt(S.num(0) if S.symbolic else .01, dd))
        out = r.p(p, w, wp, time)
        S.ensures('Henyey-Greenstein with the asymmetry inside', S.Implies(i, S.eq(out, S.get(U + ':phase_hg')(w, wp, g))))
        S.ensures('no phase outside', S.Implies(S.Not(i), S.eq(out, 0)))
        return
    for n, f in (('sigma_a', lambda k: A[k]), ('sigma_s', lambda k: Sc[k]), ('sigma_t', lambda k: A[k] + Sc[k]), ('lve', lambda k: Le[k])):
        out = getattr(r, n)(p, w, time)
        S.ensures(n + ' inside', S.Implies(i, each(S, out, f)))
        S.ensures(n + ' outside', S.Implies(S.Not(i), each(S, out, lambda k: 0)))
    S.ensures('arguments unchanged', S.And(S.unchanged(p, sp), S.unchanged(A, sa), S.unchanged(Sc, ss)))


def probe(S, t, media, density, hits=None):
    m = S.mod(V)
    seen = []

    class Probe(m.DensityRegion):
        def __call__(self, pnt):
            seen.append([pnt[i] for i in range(3)])
            return density(pnt)

        def world_bound(self):
            return None

        def intersect_p(self, ray):
            return hits(ray)
    return Probe(*media, t), seen


@contract(P, [V + ':DensityRegion.' + n for n in ('__init__', 'sigma_a', 'sigma_s', 'sigma_t', 'lve', 'p')] + [V + ':VolumeRegion.sigma_t'], **O)
def density_region(S):
    """coefficients are scaled by the density at the point in the space of the volume, the phase function is not"""
    A, Sc, g, Le = md = media(S)
    t = placed(S)
    D = S.real('D', 0, 3)
    r, seen = probe(S, t, md, lambda p: D)
    p, w, wp, time = S.point('p', -3, 3), S.vec('w', -1, 1), S.vec('wp', -1, 1), S.real('time', 0, 1)
    snap = [S.snap(x) for x in (p, A, Sc, Le)]
    q = point_in(S, t.m_inv, p)
    for n, f in (('sigma_a', lambda k: A[k]), ('sigma_s', lambda k: Sc[k]), ('sigma_t', lambda k: A[k] + Sc[k]), ('lve', lambda k: Le[k])):
        out = getattr(r, n)(p, w, time)
        S.ensures(n + ' scaled by the density', each(S, out, lambda k: D * f(k)))
    for s in seen:
        S.ensures('density at the point in volume space', same(S, s, q))
    dd = 1 + g * g - 2 * g * S.dot(w, wp)
    S.requires(S.lt(S.num(0) if S.symbolic else .01, dd))
    S.ensures('phase function', S.eq(r.p(p, w, wp, time), S.get(U + ':phase_hg')(w, wp, g)))
    S.ensures('arguments unchanged', S.And(*[S.unchanged(x, s) for x, s in zip((p, A, Sc, Le), snap)]))
    # the default attenuation of any region
    m = S.mod(V)
    fake = Rec(sigma_a=lambda *a: (log.append(a), A)[1], sigma_s=lambda *a: (log.append(a), Sc)[1])
    log = []
    S.ensures('attenuation is absorption and scattering together', each(S, m.VolumeRegion.sigma_t(fake, p, w, time), lambda k: A[k] + Sc[k]))
    S.ensures('at the point, direction and time', len(log) == 2 and all(a[0] is p and a[1] is w and a[2] is time for a in log))


MARCH = api.cut(V, 'DensityRegion.tau', 0, api.WhileCut)


@contract(P, [V + ':DensityRegion.tau'], **O)
def march(S):
    """optical thickness: attenuation summed at every step from the offset to the end of the overlap, times the step; any number of steps"""
    md = media(S)
    t = placed(S)
    asked = []
    hit = S.choice('hit', [True, False])
    t0, t1 = S.real('t0', 0, 2), S.real('t1', 2, 5)
    r, _ = probe(S, t, md, None, lambda ray: asked.append(ray) or [hit, t0, t1])
    o, d = S.point('o', -2, 2), S.vec('d', -2, 2)
    q = S.dot(d, d)
    still = S.choice('still', [False, True])
    if still:
        if S.symbolic:
            S.requires(same(S, d, [0, 0, 0]))
        else:
            d = S.mod(G).Vector(0., 0., 0.)
    else:
        S.requires(S.lt(S.num(0) if S.symbolic else .01, q))
    n = S.sqrt(q)
    if S.symbolic and not still:
        S.requires(S.And(S.lt(0, n), S.eq(n * n, q)))
    step, u = S.real('step', .1, 1), S.real('u', 0, 1)
    S.requires(S.And(S.lt(0, step), S.le(0, u)))
    mint, maxt, time = S.real('mint', 0, 1), S.real('maxt', 1, 9), S.real('time', 0, 1)
    ray = S.mod(G).Ray(o, d, mint, maxt, 0, time)
    N = S.fresh_int('bound') if S.symbolic else None
    cols = [S.array('T%d' % k, N, 0, 3) for k in range(3)] if S.symbolic else [S.lst('T%d' % k, 60, 0, 3) if hasattr(S, 'lst') else [S.real('T%d_%d' % (k, j), 0, 3) for j in range(60)] for k in range(3)]
    sums = [partial(S, 'sum%d' % k, N, lambda i, k=k: cols[k].at(i) if S.symbolic else cols[k][i]) for k in range(3)]
    calls = []

    def at(i):
        return t0 + (u + i) * step

    def sigma_t(p, w, tm):
        i = MARCH.i if S.symbolic else len(calls)
        calls.append(i)
        for a in range(3):
            S.ensures('sampled at the middle of the step', S.eq(p[a] * n, o[a] * n + d[a] * at(i)))
            S.ensures('looking back along the ray', S.eq(w[a] * n, -d[a]))
        S.ensures('at the time of the ray', S.eq(tm, time))
        return colour(S, lambda k: cols[k].at(i) if S.symbolic else cols[k][i])
    r.sigma_t = sigma_t

    def role(name, v):
        if hasattr(v, 'to_xyz'):
            return (lambda i: colour(S, lambda k: sums[k](i))), (lambda v, i: each(S, v, lambda k: sums[k](i)))
        def inv(v, i):
            return S.And(S.eq(v, at(i)), S.Implies(S.lt(0, i), S.lt(at(i - 1), t1)))

        def havoc(i):
            S.requires(S.Implies(S.lt(0, i), S.lt(at(i - 1), t1)))
            S.requires(S.lt(i, N))   # N is as large as need be
            st['i'] = i
            return at(i)
        return havoc, inv
    st = {}
    MARCH.accumulate(S, role)
    out = r.tau(ray, step, u)
    if still:
        S.ensures('nothing along a ray without direction', each(S, out, lambda k: 0))
        return
    S.ensures('overlap looked up once', len(asked) == 1)
    a = asked[0]
    S.ensures('for the ray of unit speed over the same segment', S.And(same(S, a.o, o), *[S.eq(a.d[i] * n, d[i]) for i in range(3)]))
    S.ensures('same range', S.And(S.eq(a.mint, mint * n), S.eq(a.maxt, maxt * n), S.eq(a.time, time)))
    if not hit:
        S.ensures('nothing outside', each(S, out, lambda k: 0))
        return
    if S.symbolic:
        i = st['i']
        S.ensures('every step of the overlap and no other', S.And(S.le(t1, at(i)), S.Or(S.eq(i, 0), S.lt(at(i - 1), t1))))
    else:
        i = len(calls)
        S.ensures('every step of the overlap and no other', at(i) >= t1 - 1e-9 and (i == 0 or at(i - 1) < t1 + 1e-9))
    S.ensures('sum times the step', each(S, out, lambda k: sums[k](i) * step))


@contract(P, [V + ':VolumeGridDensity.__call__', V + ':VolumeGridDensity.__init__', V + ':VolumeGridDensity.nx', V + ':VolumeGridDensity.ny', V + ':VolumeGridDensity.nz'] + [V + ':DensityRegion.__init__'], weight=2, **O)
def grid(S):
    """density of a grid of any size: trilinear between the centres of the voxels, the outermost values beyond them, nothing outside"""
    md = media(S)
    e, _ = extent(S, [])
    if S.symbolic:
        N = [S.int(c, 1) for c in ('nz', 'ny', 'nx')]
        d = S.array('D', tuple(N))
        get = lambda x, y, z: S.at(d, z, y, x)
    else:
        np = S.mod(V).np
        N = [int(S.int(c, 1, 4)) for c in ('nz', 'ny', 'nx')]
        d = np.array([[[S.real('D%d%d%d' % (i, j, k), 0, 3) for k in range(N[2])] for j in range(N[1])] for i in range(N[0])])
        get = lambda x, y, z: d[int(z)][int(y)][int(x)]
    r = S.mod(V).VolumeGridDensity(*md, e, placed(S), d)
    S.ensures('size', S.And(S.eq(r.nx, N[2]), S.eq(r.ny, N[1]), S.eq(r.nz, N[0])))
    p = S.point('p', -3, 3)
    sp = S.snap(p)
    out = r(p)
    i = inside(S, e, p)
    if not S.decide(i):
        S.ensures('nothing outside', S.eq(out, 0))
        return
    lo, w = [], []
    for a in range(3):
        v = S.div(p[a] - e.pMin[a], e.pMax[a] - e.pMin[a]) * N[2 - a] - S.div(S.num(1), 2)
        f = S.mod(V).INT(S.floor(v))
        lo.append(f)
        w.append(v - f)

    def clamp(x, n):
        return 0 if S.decide(S.lt(x, 0)) else n - 1 if S.decide(S.lt(n - 1, x)) else x
    tot = 0
    for c in range(8):
        b = [(c >> a) & 1 for a in range(3)]
        wt = 1
        for a in range(3):
            wt = wt * (w[a] if b[a] else 1 - w[a])
        tot = tot + wt * get(*[clamp(lo[a] + b[a], N[2 - a]) for a in range(3)])
    S.ensures('trilinear', S.eq(out, tot))
    S.ensures('point unchanged', S.unchanged(p, sp))


def keeps(S, r, md):
    A, Sc, g, Le = md
    S.ensures('coefficients of the medium', S.And(*[each(S, out, lambda k, v=v: v[k]) for out, v in ((r.sig_a, A), (r.sig_s, Sc), (r.le, Le))], S.eq(r.g, g)))


@contract(P, [V + ':VolumeGridDensity.__init__', V + ':VolumeGridDensity.world_bound', V + ':VolumeGridDensity.intersect_p', V + ':ExponentialDensity.world_bound', V + ':ExponentialDensity.intersect_p', V + ':ExponentialDensity.__call__', V + ':ExponentialDensity.__init__'], **O)
def exponential(S):
    md = media(S)
    asked = []
    e, want = extent(S, asked)
    t = placed(S)
    kind = S.choice('kind', ['grid', 'exponential', 'density'])
    if kind == 'grid':
        d = S.array('D', (2, 2, 2)) if S.symbolic else S.mod(V).np.ones((2, 2, 2))
        r = S.mod(V).VolumeGridDensity(*md, e, t, d)
        keeps(S, r, md)
        places(S, r, e, asked, want, t)
        return
    up = S.vec('up', .1, 2)
    a, b = S.real('a', 0, 2), S.real('b', 0, 2)
    q = S.dot(up, up)
    S.requires(S.lt(0, q))
    n = S.sqrt(q)
    if S.symbolic:
        S.requires(S.And(S.lt(0, n), S.eq(n * n, q)))
    r = S.mod(V).ExponentialDensity(*md, e, t, a, b, up)
    keeps(S, r, md)
    if kind == 'exponential':
        places(S, r, e, asked, want, t)
        return
    p = S.point('p', -3, 3)
    sp = S.snap(p)
    out = r(p)
    i = inside(S, e, p)
    if not S.decide(i):
        S.ensures('nothing outside', S.eq(out, 0))
        return
    h = S.div(sum((p[k] - e.pMin[k]) * up[k] for k in range(3)), n)
    S.ensures('decays exponentially with the height above the corner', S.eq(out, a * S.exp(-b * h)))
    S.ensures('point unchanged', S.unchanged(p, sp))


# ------------------------------------------------------------------ aggregates
SUMS = {n: api.cut(V, 'AggregateVolume.' + n, 0) for n in ('sigma_a', 'sigma_s', 'sigma_t', 'lve', 'tau', 'p', 'intersect_p', '__init__')}


def aggregate(S, regions):
    m = S.mod(V)
    if not S.symbolic:
        return m.AggregateVolume(regions)
    a = m.AggregateVolume.__new__(m.AggregateVolume)
    a.regions = regions
    return a


@contract(P, [V + ':AggregateVolume.' + n for n in ('sigma_a', 'sigma_s', 'sigma_t', 'lve', 'tau')], **O)
def sums(S):
    """coefficients and thickness of any number of regions are the sums of theirs"""
    n = S.choice('quantity', ['sigma_a', 'sigma_s', 'sigma_t', 'lve', 'tau'])
    args = (object(), S.real('step', 0, 1), S.real('offset', 0, 1)) if n == 'tau' else (object(), object(), S.real('time', 0, 1))
    box = S.mod(G).BBox(S.point('b0', -1, 1), S.point('b1', -1, 1))

    def item(k, c):
        def value(*a):
            S.ensures('asked with the arguments', len(a) == 3 and all(x is y for x, y in zip(a, args)))
            return c
        return Rec(**{n: value, 'world_bound': lambda: box})
    if S.symbolic:
        N = S.int('N', 0)
        cols = [S.array('C%d' % k, N) for k in range(3)]
        val = lambda k, i: cols[k].at(i)
        regions = S.list(N, lambda i: item(i, colour(S, lambda k: val(k, i))))
    else:
        N = int(S.int('N', 0, 5))
        cs = [rgb(S, 'C%d' % i) for i in range(N)]
        snap = [S.snap(c) for c in cs]
        val = lambda k, i: cs[i][k]
        regions = [item(i, cs[i]) for i in range(N)]
    part = [partial(S, 'sum%d' % k, N, lambda i, k=k: val(k, i)) for k in range(3)]
    SUMS[n].accumulate(S, lambda name, v: ((lambda i: colour(S, lambda k: part[k](i))), (lambda v, i: each(S, v, lambda k: part[k](i)))) if hasattr(v, 'to_xyz') else None)
    out = getattr(aggregate(S, regions), n)(*args)
    S.ensures('sum', each(S, out, lambda k: part[k](N)))
    if not S.symbolic:
        S.ensures('regions unchanged', all(S.unchanged(c, s) for c, s in zip(cs, snap)))


@contract(P, [V + ':AggregateVolume.p'], **O)
def mixed_phase(S):
    """phase function of several regions: their mean weighted by luminance of scattering; zero when nothing scatters"""
    args = (object(), object(), object(), S.real('time', 0, 1))
    box = S.mod(G).BBox(S.point('b0', -1, 1), S.point('b1', -1, 1))

    def item(c, p):
        return Rec(sigma_s=lambda q, w, tm: S.ensures('scattering at the point and time', q is args[0] and tm is args[3]) or c,
                   p=lambda *a: S.ensures('phase with the arguments', len(a) == 4 and all(x is y for x, y in zip(a, args))) or p, world_bound=lambda: box)
    if S.symbolic:
        N = S.int('N', 0)
        cols, ps = [S.array('C%d' % k, N) for k in range(3)], S.array('P', N)
        col = lambda i: colour(S, lambda k: cols[k].at(i))
        ph = lambda i: ps.at(i)
        regions = S.list(N, lambda i: item(col(i), ph(i)))
    else:
        N = int(S.int('N', 0, 5))
        cs = [rgb(S, 'C%d' % i) if S.choice('scatters%d' % i, [True, False]) else colour(S, lambda k: 0.) for i in range(N)]
        pl = [S.real('P%d' % i, 0, 2) for i in range(N)]
        col, ph = (lambda i: cs[i]), (lambda i: pl[i])
        regions = [item(cs[i], pl[i]) for i in range(N)]
    wt = partial(S, 'weight', N, lambda i: col(i).y())
    ws = partial(S, 'weighted', N, lambda i: col(i).y() * ph(i))

    def role(name, v):
        f = ws if name == 's' else wt
        return (lambda i: f(i)), (lambda v, i: S.eq(v, f(i)))
    SUMS['p'].accumulate(S, role)
    out = aggregate(S, regions).p(*args)
    S.ensures('weighted mean', S.Implies(S.lt(0, wt(N)), S.eq(out * wt(N), ws(N))))
    S.ensures('no scattering', S.Implies(S.eq(wt(N), 0), S.eq(out, 0)))


@contract(P, [V + ':AggregateVolume.intersect_p'], **O)
def overlap(S):
    """the range covers that of every region hit and nothing beyond them all"""
    ray = object()
    box = S.mod(G).BBox(S.point('b0', -1, 1), S.point('b1', -1, 1))

    def item(h, a, b):
        return Rec(intersect_p=lambda r: S.ensures('asked about the ray', r is ray) or [h, a, b], world_bound=lambda: box)
    if not S.symbolic:
        N = int(S.int('N', 0, 5))
        rs = [(S.choice('hit%d' % i, [True, False]), S.real('a%d' % i, 0, 3), S.real('b%d' % i, 3.5, 6)) for i in range(N)]
        out = aggregate(S, [item(*r) for r in rs]).intersect_p(ray)
        hs = [r for r in rs if r[0]]
        S.ensures('hit when some region is', bool(out[0]) == bool(hs))
        S.ensures('range', not hs or (out[1] == min(r[1] for r in hs) and out[2] == max(r[2] for r in hs)))
        return
    N = S.int('N', 0)
    ha, r0, r1 = S.array('H', N), S.array('R0', N), S.array('R1', N)

    def hits(i):
        return S.lt(0, ha.at(i))
    low, high = S.real('low'), S.real('high')

    def fact(i):
        S.requires(S.Implies(hits(i), S.lt(r0.at(i), r1.at(i))))
        S.requires(S.Implies(S.And(hits(i), allin), S.And(S.le(low, r0.at(i)), S.le(r1.at(i), high))))
        S.requires(S.Implies(none, S.Not(hits(i))))

    def make(i):
        fact(i)
        return item(hits(i), r0.at(i), r1.at(i))
    allin, none = S.bool('all within'), S.bool('none hit')
    w = S.int('w', 0)
    S.requires(S.lt(w, N))
    fact(w)
    st = {}

    def value(i, inf, bound, name):
        if 'empty' not in st:
            st['empty'] = S.decide(S.eq(i, 0)) or S.choice('nothing so far', [True, False])
            if st['empty']:
                S.requires(S.Implies(S.lt(w, i), S.Not(hits(w))))
            else:
                S.requires(S.Not(none))
        if st['empty']:
            return inf
        x = S.fresh(name)
        st[name] = x
        S.requires(S.Implies(allin, (S.le(low, x) if name == 'near' else S.le(x, high))))
        S.requires(S.Implies(S.And(S.lt(w, i), hits(w)), (S.le(x, r0.at(w)) if name == 'near' else S.le(r1.at(w), x))))
        if 'near' in st and 'far' in st:
            S.requires(S.lt(st['near'], st['far']))
        return x

    def isinf(v):
        return not S.isnum(v)

    def check(name, v, i):
        if isinf(v):
            return S.And(v == (S.inf if name == 'near' else -S.inf), S.Implies(S.lt(w, i), S.Not(hits(w))))
        st['after ' + name] = v
        c = [S.Not(none), S.Implies(allin, (S.le(low, v) if name == 'near' else S.le(v, high))),
             S.Implies(S.And(S.lt(w, i), hits(w)), (S.le(v, r0.at(w)) if name == 'near' else S.le(r1.at(w), v)))]
        if 'after near' in st and 'after far' in st:
            c.append(S.lt(st['after near'], st['after far']))
        return S.And(*c)

    def role(name, v):
        if S.isnum(v):
            return None
        k = 'near' if v > 0 else 'far'
        return (lambda i: value(i, v, None, k)), (lambda v, i: check(k, v, i))
    SUMS['intersect_p'].accumulate(S, role)
    out = aggregate(S, S.list(N, make)).intersect_p(ray)
    h = S.decide(out[0])
    if h:
        S.ensures('hit when some region is', S.Not(none))
        S.ensures('covers every region hit', S.Implies(hits(w), S.And(S.le(out[1], r0.at(w)), S.le(r1.at(w), out[2]))))
        S.ensures('nothing beyond the regions', S.Implies(allin, S.And(S.le(low, out[1]), S.le(out[2], high))))
    else:
        S.ensures('missed when every region is', S.Not(hits(w)))


@contract(P, [V + ':AggregateVolume.__init__', V + ':AggregateVolume.world_bound'], **O)
def bounds(S):
    """the bound contains that of each region and is contained in every box that does"""
    m, g = S.mod(V), S.mod(G)
    if not S.symbolic:
        n = int(S.int('n', 1, 5))
        bs = [g.BBox(S.point('p%d' % i, -3, 3), S.point('q%d' % i, -3, 3)) for i in range(n)]
        snap = [S.snap(b.pMin) for b in bs]
        b = m.AggregateVolume([Rec(world_bound=lambda b=b: b) for b in bs]).world_bound()
        S.ensures('bound', all(b.pMin[k] == min(x.pMin[k] for x in bs) and b.pMax[k] == max(x.pMax[k] for x in bs) for k in range(3)))
        S.ensures('regions unchanged', all(S.unchanged(x.pMin, s) for x, s in zip(bs, snap)))
        return
    N = S.int('N', 1)
    lo, hi = [S.array('lo%d' % k, N) for k in range(3)], [S.array('hi%d' % k, N) for k in range(3)]
    big = [S.real('big%d' % k) for k in range(6)]
    bb = S.bool('all in a box')

    def bound(k):
        b = g.BBox()
        b.pMin, b.pMax = g.Point(*[x.at(k) for x in lo]), g.Point(*[x.at(k) for x in hi])
        for i in range(3):
            S.requires(S.le(lo[i].at(k), hi[i].at(k)))
            S.requires(S.Implies(bb, S.And(S.le(big[i], lo[i].at(k)), S.le(hi[i].at(k), big[3 + i]))))
        return b
    parts = S.list(N, lambda k: Rec(world_bound=lambda: bound(k)))
    w = S.int('w', 0)
    S.requires(S.lt(w, N))
    st = {}

    def inv(b, i):
        return S.And(S.Implies(S.lt(w, i), S.And(*[S.And(S.le(b.pMin[k], lo[k].at(w)), S.le(hi[k].at(w), b.pMax[k])) for k in range(3)])),
                     S.Implies(bb, S.And(*[S.And(S.le(big[k], b.pMin[k]), S.le(b.pMax[k], big[3 + k])) for k in range(3)])))

    def havoc(loc, i):
        b = loc['self'].bound
        st['i'] = i
        if S.decide(S.eq(i, 0)):
            return {}
        for k in range(3):
            b.pMin[k], b.pMax[k] = S.fresh('bl'), S.fresh('bh')
        S.requires(inv(b, i))
        return {}

    def check(loc, i):
        b = loc['self'].bound
        if 'i' not in st:
            S.ensures('starts empty', all(b.pMin[k] == S.inf and b.pMax[k] == -S.inf for k in range(3)), 'inv')
            return
        S.ensures('bound so far', inv(b, i), 'inv')
    SUMS['__init__'].use(S, havoc, check)
    a = m.AggregateVolume(parts)
    b = a.world_bound()
    S.ensures('regions kept', a.regions is parts)
    S.ensures('contains each', S.And(*[S.And(S.le(b.pMin[k], lo[k].at(w)), S.le(hi[k].at(w), b.pMax[k])) for k in range(3)]))
    S.ensures('smallest', S.Implies(bb, S.And(*[S.And(S.le(big[k], b.pMin[k]), S.le(b.pMax[k], big[3 + k])) for k in range(3)])))


# ------------------------------------------------------------------ measured data, subsurface scattering
@contract(P, [U + ':get_volume_scattering'], tol=1e-12)
def measured(S):
    """absorption first, then reduced scattering; the table lists them the other way round"""
    from fractions import Fraction
    t = S.mod('pytracer.data.volume').MEASURED_SUF_SC
    f = S.get(U + ':get_volume_scattering')
    name = S.choice('name', sorted(t))
    out = f(name)
    S.ensures('absorption and scattering', len(out) == 2)
    for k in range(3):
        S.ensures('absorption', S.eq(out[0][k], t[name][1][k]))
        S.ensures('scattering', S.eq(out[1][k], t[name][0][k]))
    out = f('no such material')
    S.ensures('unknown material', len(out) == 2 and out[0] is None and out[1] is None)


@contract(P, [B + ':BSSRDF.__init__', B + ':BSSRDF.eta', B + ':BSSRDF.sigma_a', B + ':BSSRDF.sigma_prime_s'], tol=1e-9)
def bssrdf(S):
    A, Sc, e = rgb(S, 'A'), rgb(S, 'Sc'), S.real('eta', 1, 2)
    b = S.mod(B).BSSRDF(A, Sc, e)
    S.ensures('fields', S.And(S.eq(b.eta, e), each(S, b.sigma_a, lambda k: A[k]), each(S, b.sigma_prime_s, lambda k: Sc[k])))
    if not S.symbolic:
        S.ensures('printable', 'sigma_a' in repr(b))
