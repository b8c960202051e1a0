"""C17: lights: emitted radiance, shadow rays, emitted rays and their densities, sets of shapes."""
from pyvc import api
from pyvc.api import contract
from contracts.c05_transform import affine, mat
from contracts.c15_spectra import rgb
from contracts.c16_cameras import tangent

L = 'pytracer.light.light'
U = 'pytracer.light.utility'
G = 'pytracer.geometry'
MC = 'pytracer.montecarlo'
P = 'C17'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Map(object):
    """an image map: notes where it is looked up; the same place has the same colour"""

    def __init__(self, S):
        self.S, self.colour, self.at = S, rgb(S, 'texel'), []

    def look_up(self, param):
        self.at.append([param[i] for i in range(len(param))])
        return self.colour


class Region(object):
    """a scene with a given bounding sphere"""

    def __init__(self, S):
        self.ctr, self.rad = S.point('centre', -4, 4), S.real('radius', .5, 4)
        S.requires(S.lt(0, self.rad))

    def world_bound(self):
        return Rec(bounding_sphere=lambda: (self.ctr, self.rad))


def placed(S, rigid=False):
    """an arbitrary placement of the light"""
    S.stub('pytracer.transform:Transform.has_scale', lambda self: False)
    if not S.symbolic and rigid:
        t = S.mod('pytracer.transform').Transform
        return t.translate(S.vec('shift', -3, 3)) * t.rotate_x(S.real('rx', -180, 180)) * t.rotate_z(S.real('rz', -180, 180))
    if not S.symbolic:
        return affine(S, 'w')
    tr = S.mod('pytracer.transform')
    A, B = tr.np.eye(4), tr.np.eye(4)
    for i in range(3):
        for j in range(4):
            A[i, j], B[i, j] = S.real('m%d%d' % (i, j)), S.real('v%d%d' % (i, j))
    return tr.Transform(A, B)   # that one is the inverse of the other is not needed


class Local(object):
    """symbolically, the image of a vector under w2l is an arbitrary vector, the same for the same argument (C05 says which)"""

    def __init__(self, S, t):
        self.S, self.t, self.seen = S, t, []

    def __call__(self, v):
        for a, r in self.seen:
            if self.S.decide(same(self.S, a, v)):
                return self.S.mod(G).Vector(r[0], r[1], r[2])
        r = [self.S.fresh('local%d' % i) for i in range(3)]
        self.seen.append(([v[i] for i in range(3)], r))
        return self.S.mod(G).Vector(r[0], r[1], r[2])


class Units(object):
    """normalize by its contract (C01): the unit vector u with u r = v, r the length of v"""

    def __init__(self, S):
        self.S, self.seen = S, []

    def __call__(self, v):
        S = self.S
        n = len(self.seen)
        r = S.fresh('len%d' % n)
        u = [S.fresh('unit%d%s' % (n, c)) for c in 'xyz']
        S.requires(S.And(S.lt(0, r), S.eq(r * r, S.dot(v, v)), S.eq(S.dot(u, u), 1), *[S.eq(u[i] * r, v[i]) for i in range(3)]))
        self.seen.append(([v[i] for i in range(3)], r, u))
        return type(v)(u[0], u[1], u[2])

    def length(self, v):
        for a, r, _ in self.seen[:1] + self.seen[:0:-1]:
            if self.S.decide(same(self.S, a, v)):
                return r
        return None


def opaque(S, l):
    """work with lengths and local directions by contract"""
    if not S.symbolic:
        return None
    l.w2l = Local(S, l.w2l)
    u = Units(S)
    S.stub(G + ':normalize', u)
    return u


def local(S, l, w):
    if isinstance(l.w2l, Local):
        return l.w2l(S.mod(G).Vector(w[0], w[1], w[2]))
    return lin(l.w2l.m, w)


def lin(t, v):
    return [sum(t[i, j] * v[j] for j in range(3)) for i in range(3)]


def origin(l):
    return [l.l2w.m[i, 3] for i in range(3)]


def same(S, a, b):
    return S.And(*[S.eq(a[i], b[i]) for i in range(3)])


def towards(S, name, p, pos, wi, un=None):
    """wi is the unit direction from p to pos"""
    d = [pos[i] - p[i] for i in range(3)]
    q = S.dot(d, d)
    r = (un.length(d) if un is not None else None) or S.sqrt(q)
    for i in range(3):
        S.ensures(name + ': unit direction to the light', S.eq(wi[i] * r, d[i]))
    return q


def apart(S, p, pos):
    d = [pos[i] - p[i] for i in range(3)]
    q = S.dot(d, d)
    S.requires(S.lt(S.num(0) if S.symbolic else .01, q))
    if S.symbolic:
        r = S.sqrt(q)
        S.requires(S.And(S.lt(0, r), S.eq(r * r, q)))
    return q


def segment(S, vis, p, eps1, pos, eps2, time):
    r = vis.ray
    d = [pos[i] - p[i] for i in range(3)]
    dist = S.sqrt(S.dot(d, d))
    S.ensures('shadow ray starts at the point', same(S, r.o, p))
    for i in range(3):
        S.ensures('shadow ray heads for the sample', S.eq(r.d[i] * dist, d[i]))
    S.ensures('shadow ray covers the segment', S.And(S.eq(r.mint, eps1), S.eq(r.maxt, dist * (1 - eps2))))
    S.ensures('shadow ray carries the time, depth nil', S.And(S.eq(r.time, time), S.eq(r.depth, 0)))


def leaving(S, ray, o, d, mint, time, name='emitted ray'):
    S.ensures(name + ': origin', same(S, ray.o, o))
    S.ensures(name + ': direction', same(S, ray.d, d))
    S.ensures(name + ': range, depth and time', S.And(S.eq(ray.mint, mint), S.Not(S.isnum(ray.maxt)) if S.symbolic else ray.maxt > 1e300, S.eq(ray.depth, 0), S.eq(ray.time, time)))


def setting(S):
    return S.point('p', -4, 4), S.real('eps', 0, .1), S.real('time', 0, 2), S.mod(U).LightSample(S.real('u1', 0, 1), S.real('u2', 0, 1), S.real('uc', 0, 1))


# ------------------------------------------------------------------ shadow rays and samples
@contract(P, [U + ':VisibilityTester.set_segment', U + ':VisibilityTester.set_ray', U + ':VisibilityTester.__init__', U + ':VisibilityTester.unoccluded', U + ':VisibilityTester.transmittance'], **O)
def visibility(S):
    m = S.mod(U)
    g = S.mod(G)
    p, q = S.point('p', -4, 4), S.point('q', -4, 4)
    e1, e2, time = S.real('e1', 0, .1), S.real('e2', 0, .1), S.real('time', 0, 2)
    apart(S, p, q)
    v = m.VisibilityTester()
    sp, sq = S.snap(p), S.snap(q)
    v.set_segment(p, e1, q, e2, time)
    segment(S, v, p, e1, q, e2, time)
    S.ensures('end points unchanged', S.And(S.unchanged(p, sp), S.unchanged(q, sq)))
    w = S.vec('w', -2, 2)
    u = m.VisibilityTester()
    u.set_ray(p, e1, w, time)
    leaving(S, u.ray, p, w, e1, time, 'direction test')
    asked = []
    hit = S.choice('hit', [True, False])
    S.ensures('unoccluded when nothing is hit', u.unoccluded(Rec(intersect_p=lambda r: asked.append(r) or hit)) is (not hit))
    S.ensures('the shadow ray is traced', len(asked) == 1 and asked[0] is u.ray)
    seen = []
    res = object()
    ren = Rec(transmittance=lambda sc, r, smp, rng: seen.append((sc, r, smp, rng)) or res)
    S.ensures('transmittance of the renderer', u.transmittance('scene', ren, 'sample', 'rng') is res and len(seen) == 1 and seen[0][0] == 'scene' and seen[0][2:] == ('sample', 'rng'))
    leaving(S, seen[0][1], p, w, e1, time, 'transmittance along the shadow ray')
    r = g.Ray(p, w)
    S.ensures('a tester made with a ray tests it', m.VisibilityTester(r).ray is r)


@contract(P, [U + ':LightSample.__init__', U + ':LightSample.from_rand', U + ':LightSample.from_sample', U + ':LightSampleOffset.__init__'], **O)
def light_samples(S):
    m = S.mod(U)
    x = [S.real('x%d' % i, 0, 1) for i in range(3)]
    a = m.LightSample(x[0], x[1], x[2])
    S.ensures('numbers', S.And(S.eq(a.u_pos[0], x[0]), S.eq(a.u_pos[1], x[1]), S.eq(a.u_com, x[2])))
    pool = list(x)
    b = m.LightSample.from_rand(lambda *k: pool.pop())
    S.ensures('three random numbers', S.And(len(pool) == 0, *[S.Or(*[S.eq(n, y) for y in x]) for n in (b.u_pos[0], b.u_pos[1], b.u_com)]))
    got = [b.u_pos[0], b.u_pos[1], b.u_com]
    S.ensures('each used once', S.eq(sum(got), sum(x)))
    i, j, n = S.int('i', 0, 3), S.int('j', 0, 3), S.int('n', 0, 3)
    if S.symbolic:
        one, two = S.array('one', (4, 4)), S.array('two', (4, 4, 2))
    else:
        one, two = [[S.real('a%d%d' % (r, c), 0, 1) for c in range(4)] for r in range(4)], [[[S.real('b%d%d%d' % (r, c, k), 0, 1) for k in range(2)] for c in range(4)] for r in range(4)]
        i, j, n = int(i), int(j), int(n)
    c = m.LightSample.from_sample(Rec(oneD=one, twoD=two), Rec(offset_com=i, offset_pos=j), n)
    S.ensures('the n-th numbers of the requests', S.And(S.eq(c.u_pos[0], two[j][n][0]), S.eq(c.u_pos[1], two[j][n][1]), S.eq(c.u_com, one[i][n])))
    asked = []
    o = m.LightSampleOffset(7, Rec(add_1d=lambda k: asked.append(('1', k)) or 'one', add_2d=lambda k: asked.append(('2', k)) or 'two'))
    S.ensures('requests', o.nSamples == 7 and o.offset_com == 'one' and o.offset_pos == 'two' and sorted(asked) == [('1', 7), ('2', 7)])


# ------------------------------------------------------------------ lights at a point
@contract(P, [L + ':PointLight.__init__', L + ':PointLight.sample_l', L + ':PointLight.pdf', L + ':PointLight.power', L + ':PointLight.is_delta_light', L + ':Light.__init__', L + ':Light.le'], **O)
def point(S):
    m = S.mod(L)
    I = rgb(S, 'I')
    t = placed(S)
    l = m.PointLight(t, I)
    S.ensures('at the placed origin', same(S, l.pos, origin(l)))
    S.ensures('placement and its inverse', S.And(*[S.And(S.eq(l.l2w.m[i, j], t.m[i, j]), S.eq(l.w2l.m[i, j], t.m_inv[i, j])) for i in range(4) for j in range(4)]))
    p, eps, time, ls = setting(S)
    q = apart(S, p, origin(l))
    si = S.snap(I)
    e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
    towards(S, 'sample', p, origin(l), wi)
    S.ensures('inverse square law', S.And(*[S.eq(e[k] * q, I[k]) for k in range(3)]))
    S.ensures('delta density', S.And(S.eq(pdf, 1), S.eq(l.pdf(p, wi), 0), l.is_delta_light() is True))
    segment(S, vis, p, eps, origin(l), 0, time)
    S.ensures('total power', S.And(*[S.eq(l.power(None)[k], 4 * S.pi * I[k]) for k in range(3)]))
    S.ensures('intensity unchanged', S.unchanged(I, si))
    S.ensures('black where nothing is hit', l.le(None).is_black())
    n = S.choice('samples', [-3, 0, 1, 5])
    a = type('Probe', (m.Light,), dict(sample_l=None, sample_r=None, pdf=None, power=None, is_delta_light=None))(t, n)
    S.ensures('at least one sample', a.ns == max(1, n))
    S.ensures('one sample by default', l.ns == 1)


@contract(P, [L + ':PointLight.sample_r'], **O)
def point_emits(S):
    m = S.mod(L)
    I = rgb(S, 'I')
    l = m.PointLight(placed(S), I)
    p, eps, time, ls = setting(S)
    ray, ns, pdf, e = l.sample_r(None, ls, S.real('v1', 0, 1), S.real('v2', 0, 1), time)
    leaving(S, ray, origin(l), S.get(MC + ':uniform_sample_sphere')(ls.u_pos[0], ls.u_pos[1]), 0, time)
    S.ensures('normal along the ray', S.And(same(S, ns, ray.d), type(ns) is S.mod(G).Normal))
    S.ensures('density over the sphere', S.eq(pdf * 4 * S.pi, 1))
    S.ensures('intensity', S.And(*[S.eq(e[k], I[k]) for k in range(3)]))


def spot_light(S):
    m = S.mod(L)
    I = rgb(S, 'I')
    w, f = S.real('width', 20, 80), S.real('falloff', 5, 15)
    l = m.SpotLight(placed(S), I, w, f)
    S.ensures('cosines of the cones', S.And(S.eq(l.cos_width, S.cos(S.div(w * S.pi, 180))), S.eq(l.cos_falloff, S.cos(S.div(f * S.pi, 180)))))
    S.ensures('position', same(S, l.pos, origin(l)))
    if S.symbolic:
        l.cos_width, l.cos_falloff = S.fresh('cw'), S.fresh('cf')   # for any cosines
        S.requires(S.And(S.le(-1, l.cos_width), S.lt(l.cos_width, l.cos_falloff), S.le(l.cos_falloff, 1)))
    return l, I, l.cos_width, l.cos_falloff


def height(S, l, w, un):
    """cosine of the angle of a world direction with the axis of the light"""
    v = local(S, l, w)
    q = S.dot(v, v)
    if un is not None:
        for a, r, u in reversed(un.seen):
            if S.decide(same(S, a, v)):
                return u[2]
    S.requires(S.lt(0, q))
    r = S.sqrt(q)
    if S.symbolic:
        S.requires(S.And(S.lt(0, r), S.eq(r * r, q)))
    return S.div(v[2], r)


def profile(S, name, out, scale, I, ct, cw, cf):
    """out = scale^-1 I f(ct), f rising from the cone to the falloff with the fourth power"""
    d = S.div(ct - cw, cf - cw)
    for k in range(3):
        S.ensures(name + ': dark outside the cone', S.Implies(S.lt(ct, cw), S.eq(out[k], 0)))
        S.ensures(name + ': full inside the falloff', S.Implies(S.lt(cf, ct), S.eq(out[k] * scale, I[k])))
        S.ensures(name + ': fourth power between', S.Implies(S.And(S.le(cw, ct), S.le(ct, cf)), S.eq(out[k], S.div(I[k] * (d * d * d * d), scale))))


@contract(P, [L + ':SpotLight.__init__', L + ':SpotLight.sample_l', L + ':SpotLight.pdf', L + ':SpotLight.power', L + ':SpotLight.is_delta_light'], weight=2, **O)
def spot(S):
    l, I, cw, cf = spot_light(S)
    un = opaque(S, l)
    p, eps, time, ls = setting(S)
    q = apart(S, p, origin(l))
    e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
    ct = height(S, l, [-wi[i] for i in range(3)], un)
    towards(S, 'sample', p, origin(l), wi, un)
    profile(S, 'radiance', e, q, I, ct, cw, cf)
    S.ensures('delta density', S.And(S.eq(pdf, 1), S.eq(l.pdf(p, wi), 0), l.is_delta_light() is True))
    segment(S, vis, p, eps, origin(l), 0, time)
    S.ensures('total power', S.And(*[S.eq(l.power(None)[k], I[k] * 2 * S.pi * (1 - (cf + cw) / 2)) for k in range(3)]))


@contract(P, [L + ':SpotLight.sample_r'], weight=2, **O)
def spot_emits(S):
    l, I, cw, cf = spot_light(S)
    un = opaque(S, l)
    p, eps, time, ls = setting(S)
    ray, ns, pdf, e = l.sample_r(None, ls, S.real('v1', 0, 1), S.real('v2', 0, 1), time)
    v = S.get(MC + ':uniform_sample_cone')(ls.u_pos[0], ls.u_pos[1], cw)
    leaving(S, ray, origin(l), lin(l.l2w.m, v), 0, time)
    S.ensures('normal along the ray', S.And(same(S, ns, ray.d), type(ns) is S.mod(G).Normal))
    S.ensures('density over the cone', S.eq(pdf * 2 * S.pi * (1 - cw), 1))
    ct = height(S, l, ray.d, un)
    if not S.symbolic:
        S.requires(abs(ct - cw) > 1e-6 and abs(ct - cf) > 1e-6)
    profile(S, 'radiance', e, 1, I, ct, cw, cf)


def projector(S, image):
    m = S.mod(L)
    I = rgb(S, 'I')
    fov = S.real('fov', 20, 120)
    l = m.ProjectionLight(placed(S), I, None, fov)
    mp = Map(S) if image else None
    asp = S.num(1)
    if image:
        l.projMap = mp
        asp = S.real('aspect', .25, 4)
        wide = S.lt(1, asp)
    S.ensures('square window without an image', S.And(S.eq(l.scr_x0, -1), S.eq(l.scr_x1, 1), S.eq(l.scr_y0, -1), S.eq(l.scr_y1, 1)))
    if image:
        l.scr_x0, l.scr_x1 = S.real('x0', -2, -1), S.real('x1', 1, 2)
        l.scr_y0, l.scr_y1 = S.real('y0', -2, -1), S.real('y1', 1, 2)
        S.requires(S.And(S.lt(l.scr_x0, l.scr_x1), S.lt(l.scr_y0, l.scr_y1)))
    return l, I, fov, tangent(S, fov), mp


def shown(S, name, l, out, scale, I, w, tg, mp):
    """what the projector sends into a world direction w"""
    v = local(S, l, w)
    front = S.le(l.hither, v[2])
    S.requires(S.And(S.lt(0, tg), S.Or(S.lt(v[2], S.num('0.999')), S.lt(S.num('1.001'), v[2]))))   # 1 is told up to a tolerance by the projective division
    if not S.symbolic:
        S.requires(abs(v[2]) > 1e-6)
    X, Y = S.div(v[0], tg * v[2]), S.div(v[1], tg * v[2])
    inside = S.And(front, S.le(l.scr_x0, X), S.le(X, l.scr_x1), S.le(l.scr_y0, Y), S.le(Y, l.scr_y1))
    if not S.symbolic:
        S.requires(min(abs(v[2] - l.hither), *[abs(a - b) for a, b in ((X, l.scr_x0), (X, l.scr_x1), (Y, l.scr_y0), (Y, l.scr_y1))]) > 1e-6)
    for k in range(3):
        S.ensures(name + ': dark outside the image and behind', S.Implies(S.Not(inside), S.eq(out[k], 0)))
        S.ensures(name + ': colour of the image', S.Implies(inside, S.eq(out[k] * scale, I[k] * (mp.colour[k] if mp is not None else 1))))
    if mp is not None:
        S.ensures(name + ': looked up when inside', S.Implies(inside, len(mp.at) > 0))
        for a in mp.at:
            S.ensures(name + ': at the relative position in the window', S.And(len(a) == 2, S.eq(a[0] * (l.scr_x1 - l.scr_x0), X - l.scr_x0), S.eq(a[1] * (l.scr_y1 - l.scr_y0), Y - l.scr_y0)))


@contract(P, [L + ':ProjectionLight.sample_l', L + ':ProjectionLight.pdf', L + ':ProjectionLight.is_delta_light', L + ':ProjectionLight.__init__'], weight=3, **O)
def projection(S):
    l, I, fov, tg, mp = projector(S, S.choice('image', [True, False]))
    un = opaque(S, l)
    p, eps, time, ls = setting(S)
    q = apart(S, p, origin(l))
    e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
    towards(S, 'sample', p, origin(l), wi, un)
    shown(S, 'radiance', l, e, q, I, [-wi[i] for i in range(3)], tg, mp)
    S.ensures('delta density', S.And(S.eq(pdf, 1), S.eq(l.pdf(p, wi), 0), l.is_delta_light() is True))
    segment(S, vis, p, eps, origin(l), 0, time)


@contract(P, [L + ':ProjectionLight.sample_r', L + ':ProjectionLight.power'], weight=3, **O)
def projection_emits(S):
    l, I, fov, tg, mp = projector(S, S.choice('image', [True, False]))
    un = opaque(S, l)
    p, eps, time, ls = setting(S)
    cw = l.cos_width
    if S.symbolic:
        S.requires(S.And(S.lt(0, cw), S.lt(cw, 1)))
    ray, ns, pdf, e = l.sample_r(None, ls, S.real('v1', 0, 1), S.real('v2', 0, 1), time)
    v = S.get(MC + ':uniform_sample_cone')(ls.u_pos[0], ls.u_pos[1], cw)
    leaving(S, ray, origin(l), lin(l.l2w.m, v), 0, time)
    S.ensures('normal along the ray', S.And(same(S, ns, ray.d), type(ns) is S.mod(G).Normal))
    S.ensures('density over the cone', S.eq(pdf * 2 * S.pi * (1 - cw), 1))
    shown(S, 'radiance', l, e, 1, I, ray.d, tg, mp)
    if mp is not None:
        mp.at = []
    pw = l.power(None)
    S.ensures('total power', S.And(*[S.eq(pw[k], I[k] * (mp.colour[k] if mp is not None else 1) * 2 * S.pi * (1 - cw)) for k in range(3)]))
    if mp is not None:
        S.ensures('average colour', S.And(len(mp.at) > 0, *[S.eq(x, S.num(1) / 2) for a in mp.at for x in a]))


@contract(P, [L + ':GonioPhotometricLight.__init__', L + ':GonioPhotometricLight.sample_l', L + ':GonioPhotometricLight.sample_r', L + ':GonioPhotometricLight.pdf', L + ':GonioPhotometricLight.power', L + ':GonioPhotometricLight.is_delta_light'], weight=2, time=3, **O)
def goniometric(S):
    m = S.mod(L)
    I = rgb(S, 'I')
    l = m.GonioPhotometricLight(placed(S), I, None)
    mp = None
    if S.choice('image', [True, False]):
        mp = l.MIPMap = Map(S)
    p, eps, time, ls = setting(S)
    pw = l.power(None)
    S.ensures('total power', S.And(*[S.eq(pw[k], I[k] * (mp.colour[k] if mp is not None else 1) * 4 * S.pi) for k in range(3)]))
    if mp is not None:
        S.ensures('average colour', S.And(len(mp.at) > 0, *[S.eq(x, S.num(1) / 2) for a in mp.at for x in a]))
        mp.at = []
    if S.choice('emitted', [False, True]):
        ray, ns, pdf, e = l.sample_r(None, ls, S.real('v1', 0, 1), S.real('v2', 0, 1), time)
        leaving(S, ray, origin(l), S.get(MC + ':uniform_sample_sphere')(ls.u_pos[0], ls.u_pos[1]), 0, time)
        S.ensures('normal along the ray', S.And(same(S, ns, ray.d), type(ns) is S.mod(G).Normal))
        S.ensures('density over the sphere', S.eq(pdf * 4 * S.pi, 1))
        w, q = ray.d, 1
    else:
        q = apart(S, p, origin(l))
        e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
        towards(S, 'sample', p, origin(l), wi)
        S.ensures('delta density', S.And(S.eq(pdf, 1), S.eq(l.pdf(p, wi), 0), l.is_delta_light() is True))
        segment(S, vis, p, eps, origin(l), 0, time)
        w = [-wi[i] for i in range(3)]
    S.ensures('radiance is the intensity times the profile', S.And(*[S.eq(e[k] * q, I[k] * (mp.colour[k] if mp is not None else 1)) for k in range(3)]))
    if mp is None:
        return
    v = local(S, l, w)
    n = S.dot(v, v)
    S.requires(S.lt(0, n))
    r = S.sqrt(n)
    if S.symbolic:
        S.requires(S.And(S.lt(0, r), S.eq(r * r, n)))
    g = S.mod(G)
    # the profile has its pole along y: azimuth in the x-z plane, polar angle from y
    u = g.Vector(S.div(v[0], r), S.div(v[2], r), S.div(v[1], r))
    f = 'pytracer.geometry.utility:spherical_'
    ph, th = S.get(f + 'phi')(u), S.get(f + 'theta')(u)
    S.ensures('looked up', len(mp.at) > 0)
    for a in mp.at:
        S.ensures('at the azimuth and polar angle around y', S.And(len(a) == 2, S.eq(a[0] * 2 * S.pi, ph), S.eq(a[1] * S.pi, th)))


# ------------------------------------------------------------------ light from afar
@contract(P, [L + ':DistantLight.__init__', L + ':DistantLight.sample_l', L + ':DistantLight.sample_r', L + ':DistantLight.pdf', L + ':DistantLight.power', L + ':DistantLight.is_delta_light'], weight=2, **O)
def distant(S):
    m = S.mod(L)
    g = S.mod(G)
    R = rgb(S, 'R')
    t = placed(S)
    di = S.vec('di', -2, 2)
    v = lin(t.m, di)
    q = S.dot(v, v)
    S.requires(S.lt(S.num(0) if S.symbolic else .01, q))
    r = S.sqrt(q)
    if S.symbolic:
        S.requires(S.And(S.lt(0, r), S.eq(r * r, q)))
    l = m.DistantLight(t, R, di)
    S.ensures('one sample', l.ns == 1)
    for i in range(3):
        S.ensures('unit direction towards the light in the world', S.eq(l.di[i] * r, v[i]))
    p, eps, time, ls = setting(S)
    e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
    S.ensures('radiance', S.And(*[S.eq(e[k], R[k]) for k in range(3)]))
    S.ensures('direction to the light', same(S, wi, l.di))
    S.ensures('delta density', S.And(S.eq(pdf, 1), S.eq(l.pdf(p, wi), 0), l.is_delta_light() is True))
    leaving(S, vis.ray, p, l.di, eps, time, 'shadow ray')
    sc = Region(S)
    d = [l.di[i] for i in range(3)]
    if S.symbolic:
        disk = [S.fresh('d1'), S.fresh('d2')]
        used = []
        S.stub(MC + ':concentric_sample_disk', lambda a, b: used.append((a, b)) or tuple(disk))
        frame = [S.vec('va'), S.vec('vb')]
        S.stub(G + ':coordinate_system', lambda w: used.append(w) or (w, frame[0], frame[1]))
    else:
        disk = S.get(MC + ':concentric_sample_disk')(ls.u_pos[0], ls.u_pos[1])
        frame = g.coordinate_system(l.di)[1:]
    e2 = S.mod(L).DistantLight.sample_r(l, sc, ls, S.real('v1', 0, 1), S.real('v2', 0, 1), time)
    ray, ns, pdf, em = e2
    leaving(S, ray, [sc.ctr[i] + sc.rad * (disk[0] * frame[0][i] + disk[1] * frame[1][i] + d[i]) for i in range(3)], [-d[i] for i in range(3)], 0, time)
    if S.symbolic:
        S.ensures('disk from the random numbers, frame around the direction', S.And(len(used) == 2, *[S.And(S.eq(w[0], ls.u_pos[0]), S.eq(w[1], ls.u_pos[1])) if isinstance(w, tuple) else same(S, w, d) for w in used]))
    S.ensures('normal along the ray', S.And(same(S, ns, ray.d), type(ns) is g.Normal))
    S.ensures('density over the disk', S.eq(pdf * S.pi * sc.rad * sc.rad, 1))
    S.ensures('emitted radiance', S.And(*[S.eq(em[k], R[k]) for k in range(3)]))
    S.ensures('total power over the disk', S.And(*[S.eq(l.power(sc)[k], R[k] * S.pi * sc.rad * sc.rad) for k in range(3)]))


# ------------------------------------------------------------------ emitting surfaces
class Sh(object):
    """a shape that can be intersected: area, samples and densities are arbitrary but fixed"""

    def __init__(self, S, n, area=None):
        self.S, self.n, self.a = S, n, S.real(n + 'A', .25, 4) if area is None else area
        S.requires(S.lt(0, self.a))
        self.solid, self.asked = S.real(n + 'pdf', 0, 3), []
        self.pt, self.nn = S.point(n + 'pt', 5, 8), S.normal(n + 'n')

    def can_intersect(self):
        return True

    def area(self):
        return self.a

    def pdf(self, p):
        return self.S.div(1, self.a)

    def pdf_p(self, p, w):
        self.asked.append(('pdf_p', p, w))
        return self.solid

    def sample_p(self, p, u1, u2):
        self.asked.append(('sample_p', p, u1, u2))
        return [self.pt, self.nn]

    def sample(self, u1, u2):
        self.asked.append(('sample', u1, u2))
        return [self.pt, self.nn]


@contract(P, [L + ':DiffuseAreaLight.__init__', L + ':DiffuseAreaLight.l', L + ':DiffuseAreaLight.sample_l', L + ':DiffuseAreaLight.sample_r', L + ':DiffuseAreaLight.pdf', L + ':DiffuseAreaLight.power', L + ':DiffuseAreaLight.is_delta_light'], weight=2, **O)
def area_light(S):
    m = S.mod(L)
    g = S.mod(G)
    E = rgb(S, 'E')
    sh = Sh(S, 's')
    ns = S.choice('samples', [0, 1, 4])
    l = m.DiffuseAreaLight(placed(S), E, ns, sh)
    S.ensures('number of samples', l.ns == max(1, ns))
    S.ensures('area', S.eq(l.area, sh.a))
    n, w = S.normal('n'), S.vec('w')
    out = l.l(S.point('x'), n, w)
    for k in range(3):
        S.ensures('emitted to the side of the normal only', S.And(S.Implies(S.lt(0, S.dot(n, w)), S.eq(out[k], E[k])), S.Implies(S.le(S.dot(n, w), 0), S.eq(out[k], 0))))
    p, eps, time, ls = setting(S)
    S.ensures('total power', S.And(*[S.eq(l.power(None)[k], E[k] * sh.a * S.pi) for k in range(3)]))
    S.ensures('no delta light', l.is_delta_light() is False)
    S.ensures('density of a direction', S.eq(l.pdf(p, w), sh.solid))
    S.ensures('density asked for the point and the direction', S.And(len(sh.asked) > 0, *[S.And(a[0] == 'pdf_p', same(S, a[1], p), same(S, a[2], w)) for a in sh.asked]))
    sh.asked = []
    if S.choice('emitted', [False, True]):
        v1, v2 = S.real('v1', 0, 1), S.real('v2', 0, 1)
        dd = S.get(MC + ':uniform_sample_sphere')(v1, v2)
        side = S.dot(dd, sh.nn)
        if not S.symbolic:
            S.requires(abs(side) > 1e-6)
        ray, nn, pdf, e = l.sample_r(None, ls, v1, v2, time)
        S.ensures('point sampled with the numbers', len(sh.asked) == 1 and sh.asked[0][0] == 'sample' and S.truth(S.And(S.eq(sh.asked[0][1], ls.u_pos[0]), S.eq(sh.asked[0][2], ls.u_pos[1]))))
        up = S.le(0, side)
        S.ensures('emitted ray: from the point', same(S, ray.o, sh.pt))
        S.ensures('emitted ray: over the hemisphere of the normal', S.And(S.Implies(up, same(S, ray.d, dd)), S.Implies(S.Not(up), same(S, ray.d, [-dd[i] for i in range(3)]))))
        S.ensures('emitted ray: depth and time', S.And(S.eq(ray.depth, 0), S.eq(ray.time, time), S.Not(S.isnum(ray.maxt)) if S.symbolic else ray.maxt > 1e300, S.le(0, ray.mint), S.le(ray.mint, .001)))
        S.ensures('normal of the surface', same(S, nn, sh.nn))
        S.ensures('density over area and hemisphere', S.eq(pdf * sh.a * 2 * S.pi, 1))
        S.ensures('radiance', S.And(*[S.Implies(S.ne(side, 0), S.eq(e[k], E[k])) for k in range(3)]))
        return
    q = apart(S, p, sh.pt)
    sp = S.snap(p)
    e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
    towards(S, 'sample', p, sh.pt, wi)
    ask = [a for a in sh.asked if a[0] == 'sample_p']
    S.ensures('point sampled with the numbers', S.And(len(ask) == 1, *[S.And(same(S, a[1], p), S.eq(a[2], ls.u_pos[0]), S.eq(a[3], ls.u_pos[1])) for a in ask]))
    ask = [a for a in sh.asked if a[0] == 'pdf_p']
    S.ensures('density of the sampled direction', S.And(S.eq(pdf, sh.solid), len(ask) > 0, *[S.And(same(S, a[1], p), same(S, a[2], wi)) for a in ask]))
    side = S.dot(sh.nn, wi)
    for k in range(3):
        S.ensures('radiance towards the point', S.And(S.Implies(S.lt(side, 0), S.eq(e[k], E[k])), S.Implies(S.le(0, side), S.eq(e[k], 0))))
    r = vis.ray
    d = [sh.pt[i] - p[i] for i in range(3)]
    dist = S.sqrt(S.dot(d, d))
    S.ensures('shadow ray starts at the point', S.And(same(S, r.o, p), S.eq(r.mint, eps)))
    for i in range(3):
        S.ensures('shadow ray heads for the sample', S.eq(r.d[i] * dist, d[i]))
    S.ensures('shadow ray ends just before the sample', S.And(S.le(r.maxt, dist), S.le(dist * .999, r.maxt)))
    S.ensures('shadow ray carries the time, depth nil', S.And(S.eq(r.time, time), S.eq(r.depth, 0)))
    S.ensures('point unchanged', S.unchanged(p, sp))


# ------------------------------------------------------------------ sets of shapes
SET = {n: [api.cut(U, 'ShapeSet.' + n, k) for k in range(2)] for n in ('pdf', 'pdf_p')}
REFINE = api.cut(U, 'ShapeSet.__init__', 0, api.WhileCut)
AREAS = api.cut(U, 'ShapeSet.__init__', 1)


def partial(S, name, N, val):
    """ghost: partial sums of val over the first i items"""
    if not S.symbolic:
        return lambda i: sum(val(k) for k in range(int(i)))
    depth = [0]

    def facts(a, k):
        r = [S.Implies(S.eq(k, 0), S.eq(a.at(0), 0))]
        if depth[0] < 1:
            depth[0] += 1
            try:
                r.append(S.Implies(S.And(S.le(0, k), S.lt(k, N)), S.eq(a.at(k + 1), a.at(k) + val(k))))
            finally:
                depth[0] -= 1
        return r
    a = S.array(name, N + 1, facts=facts)
    return lambda i: a.at(i)


class Member(object):
    def __init__(self, S, k, area, solid, log):
        self.S, self.k, self.a, self.solid, self.log = S, k, area, solid, log

    def can_intersect(self):
        return True

    def area(self):
        return self.a

    def pdf(self, p):
        self.log.append(('pdf', p))
        return self.S.div(1, self.a)

    def pdf_p(self, p, w):
        self.log.append(('pdf_p', p, w))
        return self.solid

    def sample(self, u1, u2):
        self.log.append(('sample', self.k, u1, u2))
        return ['pt', 'nn']

    def sample_p(self, p, u1, u2):
        self.log.append(('sample_p', self.k, u1, u2, p))
        return ['pt', 'nn']


def members(S):
    """a set of any number of shapes"""
    m = S.mod(U)
    log = []
    if not S.symbolic:
        n = int(S.int('n', 1, 6))
        A, D = [S.real('A%d' % k, .25, 4) for k in range(n)], [S.real('D%d' % k, 0, 3) for k in range(n)]
        ms = [Member(S, k, A[k], D[k], log) for k in range(n)]
        s = m.ShapeSet(Rec(can_intersect=lambda: False, refine=lambda: list(ms)))
        order = [x.k for x in s.shapes]
        return s, n, (lambda k: A[order[int(k)]]), (lambda k: D[order[int(k)]]), log, order
    n = S.int('n', 1)
    area, solid = S.array('A', (n,), facts=lambda a, k: [S.lt(0, a.at(k))]), S.array('D', (n,))
    s = m.ShapeSet.__new__(m.ShapeSet)
    made = {}

    def item(k):
        return Member(S, k, S.at(area, k), S.at(solid, k), log)
    s.shapes = S.list(n, item)
    s.areas = S.list(n, lambda k: S.at(area, k))
    s.sum_area = S.real('total')
    S.requires(S.lt(0, s.sum_area))
    return s, n, (lambda k: S.at(area, k)), (lambda k: S.at(solid, k)), log, None


def num_role(S, g):
    return lambda name, v: (lambda i: g(i), lambda v, i: S.eq(v, g(i)))


@contract(P, [U + ':ShapeSet.pdf', U + ':ShapeSet.pdf_p'], **O)
def set_densities(S):
    """for any number of shapes: area weighted mean of the densities of a direction; the density of a point is one over the whole area"""
    s, n, A, D, log, order = members(S)
    p, w = S.point('p'), S.vec('w')
    F = partial(S, 'F', n, lambda k: A(k) * D(k))
    SET['pdf'][0].accumulate(S, num_role(S, F))
    SET['pdf_p'][0].accumulate(S, num_role(S, lambda i: i))
    if not S.symbolic:
        S.ensures('whole area', S.eq(s.sum_area, sum(A(k) for k in range(n))))
    r = s.pdf(p, w)
    S.ensures('area weighted mean', S.eq(r * s.sum_area, F(n)))
    S.ensures('asked for the direction', S.And(True, *[S.And(same(S, e[1], p), same(S, e[2], w)) for e in log if e[0] == 'pdf_p']))
    S.ensures('density of a point', S.eq(s.pdf_p(p) * s.sum_area, 1))


@contract(P, [U + ':ShapeSet.sample', U + ':ShapeSet.sample_p'], **O)
def set_samples(S):
    """the shape is chosen by the distribution of areas with the component number, the point on it with the position numbers"""
    s, n, A, D, log, order = members(S)
    p, eps, time, ls = setting(S)
    used = []
    if S.symbolic:
        k = S.int('k', 0)
        S.requires(S.lt(k, n))
        s.area_dist = Rec(sample_dis=lambda u: used.append(u) or (k, S.fresh('prob')))
    else:
        k = order[int(s.area_dist.sample_dis(ls.u_com)[0])]
    S.ensures('result', s.sample(ls) == ['pt', 'nn'] and s.sample_p(p, ls) == ['pt', 'nn'])
    S.ensures('component number chooses', S.And(True, *[S.eq(u, ls.u_com) for u in used]))
    S.ensures('each asked once', [e[0] for e in log] == ['sample', 'sample_p'])
    for e in log:
        S.ensures('the chosen shape, with the numbers', S.And(S.eq(e[1], k), S.eq(e[2], ls.u_pos[0]), S.eq(e[3], ls.u_pos[1])))
    S.ensures('seen from the point', same(S, log[1][4], p))


class Heap(object):
    """worklist of shapes: number, number of nodes below, how many of them are above the witness"""

    def __init__(self, S, n, weight, count):
        self.S, self.n, self.weight, self.count = S, n, weight, count

    def __vlen__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def pop(self, *at):
        from pyvc.sym import bterm, ctx
        S = self.S
        ctx().definedness('index', bterm(S.lt(0, self.n)))
        size, c = S.fresh_int('size'), S.fresh_int('c')
        S.requires(S.And(S.le(1, size), S.le(0, c), S.le(c, 1), S.le(c, self.count), S.le(size, self.weight - (self.n - 1)),
                         S.Implies(S.eq(self.n, 1), S.And(S.eq(size, self.weight), S.eq(c, self.count)))))
        self.n, self.weight, self.count = self.n - 1, self.weight - size, self.count - c
        return Node(S, size, c)

    def append(self, p):
        self.n, self.weight, self.count = self.n + 1, self.weight + p.size, self.count + p.c

    def extend(self, b):
        for x in ([b] if isinstance(b, Heap) else b):
            if isinstance(x, Heap):
                self.n, self.weight, self.count = self.n + x.n, self.weight + x.weight, self.count + x.count
            else:
                self.append(x)

    def __iadd__(self, b):
        self.extend(b)
        return self


class Node(object):
    def __init__(self, S, size, c):
        self.S, self.size, self.c = S, size, c
        self.leaf = S.eq(size, 1)

    def can_intersect(self):
        return self.leaf

    def refine(self):
        S = self.S
        S.ensures('only refinable shapes are refined', S.Not(self.leaf), 'requires')
        n = S.fresh_int('n')
        S.requires(S.And(S.le(1, n), S.le(n, self.size - 1)))
        return Heap(S, n, self.size - 1, self.c)


class Done(object):
    """the shapes found: their number, how often the witness is among them, their areas"""

    def __init__(self, S, n, count, area):
        self.S, self.n, self.count, self.area = S, n, count, area

    def append(self, p):
        self.S.ensures('only intersectable shapes are kept', p.leaf, 'requires')
        self.n, self.count = self.n + 1, self.count + p.c

    def __vlen__(self):
        return self.n

    def __getitem__(self, k):
        return Member(self.S, k, self.area(k), 0, [])

    def __iter__(self):
        from pyvc.sym import Unsupported
        raise Unsupported('iteration over a list of unknown length')


class Twig(object):
    def __init__(self, kids, area):
        self.kids, self.a = kids, area

    def can_intersect(self):
        return self.kids is None

    def refine(self):
        assert self.kids is not None
        return list(self.kids)

    def area(self):
        return self.a

    def leaves(self):
        return [self] if self.kids is None else [l for k in self.kids for l in k.leaves()]


def twig(S, depth, name='t'):
    if depth == 0 or S.choice(name, ['leaf', 'inner', 'inner']) == 'leaf':
        return Twig(None, S.real(name + 'A', .25, 4))
    return Twig([twig(S, depth - 1, name + str(k)) for k in range(int(S.int(name + 'n', 1, 3)))], None)


@contract(P, [U + ':ShapeSet.__init__'], **O)
def set_parts(S):
    """for a shape of any depth: every intersectable part once, its area, their sum, and the distribution over the areas"""
    m = S.mod(U)
    if not S.symbolic:
        t = twig(S, 3)
        s = m.ShapeSet(t)
        S.ensures('every part once', sorted(map(id, s.shapes)) == sorted(map(id, t.leaves())))
        S.ensures('areas', len(s.areas) == len(s.shapes) and all(a == x.a for a, x in zip(s.areas, s.shapes)))
        S.ensures('whole area', S.eq(s.sum_area, sum(x.a for x in s.shapes)))
        S.ensures('distribution of the areas', all(S.truth(S.eq(a, b)) for a, b in zip(s.area_dist.func, s.areas)))
        return
    size, c = S.int('size', 1), S.int('below', 0, 1)
    root = Node(S, size, c)
    s = m.ShapeSet.__new__(m.ShapeSet)
    n = S.fresh_int('parts')
    S.requires(S.le(0, n))
    area = S.array('A', (n,), facts=lambda a, k: [S.lt(0, a.at(k))])
    at = lambda k: S.at(area, k)
    T = partial(S, 'T', n, at)
    made = []
    S.stub(MC + ':Distribution1D', lambda f: made.append(f) or 'dist')

    def state(loc):
        h, d = loc['tmp'], s.shapes
        if isinstance(h, list):
            h = Heap(S, len(h), sum(x.size for x in h), sum(x.c for x in h))
        if isinstance(d, list):
            d = Done(S, len(d), sum(x.c for x in d), at)
        return h, d

    def inv(h, d):
        return S.And(S.le(0, h.n), S.le(h.n, h.weight), S.le(0, h.count), S.le(0, d.count), S.Implies(S.eq(h.n, 0), S.And(S.eq(h.weight, 0), S.eq(h.count, 0))),
                     S.eq(d.count + h.count, c), S.le(0, d.n))

    def havoc(loc, i):
        h, d = Heap(S, S.fresh_int('n'), S.fresh_int('weight'), S.fresh_int('count')), Done(S, n, S.fresh_int('done'), at)
        S.requires(inv(h, d))
        s.shapes = d
        return {'tmp': h}
    REFINE.use(S, havoc, lambda loc, i: S.ensures('every part is pending or done, once', inv(*state(loc)), 'inv'))
    REFINE.variant = lambda loc: state(loc)[0].weight
    j = S.int('witness', 0)

    def ahavoc(loc, i):
        s.areas, s.sum_area = S.list(i, at), T(i)
        return {}

    def acheck(loc, i):
        a = s.areas
        S.ensures('areas so far', S.eq(a.__vlen__() if hasattr(a, '__vlen__') else len(a), i), 'inv')
        if hasattr(a, '__vlen__'):
            S.ensures('each its area', S.Implies(S.lt(j, i), S.eq(a.at(j) if not a.new else S.If(S.eq(j, i - 1), a.new[0], at(j)), at(j))), 'inv')
            S.ensures('one area each', len(a.new) <= 1, 'inv')
        S.ensures('sum so far', S.eq(s.sum_area, T(i)), 'inv')
    AREAS.use(S, ahavoc, acheck)
    s.__init__(root)
    S.ensures('every part once', S.eq(s.shapes.count, c))
    S.ensures('all areas', S.eq(s.areas.__vlen__(), s.shapes.n))
    S.ensures('whole area', S.eq(s.sum_area, T(s.shapes.n)))
    S.ensures('distribution of the areas', len(made) == 1 and made[0] is s.areas and s.area_dist == 'dist')


# ------------------------------------------------------------------ environment light
class Dist(object):
    """a distribution over the map: one sample, its density, and the density asked for"""

    def __init__(self, S):
        self.uv, self.p, self.d, self.used, self.at = [S.real('U', .01, .99), S.real('V', .01, .99)], S.real('dens', .1, 3), S.real('asked', 0, 3), [], []

    def sample_cont(self, a, b):
        self.used.append((a, b))
        return [list(self.uv), self.p]

    def pdf(self, u, v):
        self.at.append((u, v))
        return self.d


def sky(S):
    m = S.mod(L)
    mp, ds = Map(S), Dist(S)
    E = rgb(S, 'E')
    made = []
    t = placed(S, True)
    S.stub('pytracer.texture:MIPMap', lambda kind, img, *a, **k: made.append((kind, img)) or mp)
    S.stub(MC + ':Distribution2D', lambda img: made.append(img) or ds)
    l = m.InfiniteAreaLight(t, E, S.choice('samples', [0, 1, 4]))
    if not S.symbolic:
        l.radMap, l.dist = mp, ds
    mp.at = []
    return l, mp, ds, E, made


def heaven(S, l, ds):
    """world direction of the sampled place of the map, and the sine of its polar angle"""
    th, ph = S.pi * ds.uv[1], 2 * S.pi * ds.uv[0]
    st = S.sin(th)
    return lin(l.l2w.m, [st * S.cos(ph), st * S.sin(ph), S.cos(th)]), st


def texel(S, name, e, mp, uv):
    S.ensures(name + ': colour of the map', S.And(*[S.eq(e[k], mp.colour[k]) for k in range(3)]))
    S.ensures(name + ': looked up', len(mp.at) > 0)
    for a in mp.at:
        S.ensures(name + ': at its place', S.And(S.eq(a[0], uv[0]), S.eq(a[1], uv[1])))


@contract(P, [L + ':InfiniteAreaLight.sample_l', L + ':InfiniteAreaLight.is_delta_light', L + ':InfiniteAreaLight.power', L + ':InfiniteAreaLight.__init__'], weight=2, **O)
def environment(S):
    """a place of the map sampled by its distribution is lit from its direction; the density is that of the place over the sine and the solid angle of the map"""
    l, mp, ds, E, made = sky(S)
    p, eps, time, ls = setting(S)
    w, st = heaven(S, l, ds)
    e, wi, pdf, vis = l.sample_l(p, eps, ls, time)
    S.ensures('place from the numbers', S.And(len(ds.used) == 1, S.eq(ds.used[0][0], ls.u_pos[0]), S.eq(ds.used[0][1], ls.u_pos[1])))
    S.ensures('direction of the place', same(S, wi, w))
    S.ensures('density over solid angle', S.If(S.eq(st, 0), S.eq(pdf, 0), S.eq(pdf * (2 * S.pi * S.pi * st), ds.p)))
    texel(S, 'radiance', e, mp, ds.uv)
    leaving(S, vis.ray, p, w, eps, time, 'shadow ray')
    S.ensures('no delta light', l.is_delta_light() is False)
    sc = Region(S)
    mp.at = []
    pw = l.power(sc)
    S.ensures('total power over the disk', S.And(*[S.eq(pw[k], S.pi * sc.rad * sc.rad * mp.colour[k]) for k in range(3)]))
    S.ensures('average colour', S.And(len(mp.at) > 0, *[S.eq(x, S.num(1) / 2) for a in mp.at for x in a]))


@contract(P, [L + ':InfiniteAreaLight.pdf', L + ':InfiniteAreaLight.le'], weight=2, **O)
def environment_lookup(S):
    """a direction has the density and the radiance of its place in the map"""
    g = S.mod(G)
    l, mp, ds, E, made = sky(S)
    un = opaque(S, l)
    w = S.vec('w') if S.symbolic else S.unit('w')
    v = local(S, l, w)
    q = S.dot(v, v)
    if S.symbolic:
        S.requires(S.eq(q, 1))
    else:
        S.requires(v[0] ** 2 + v[1] ** 2 > 1e-6)
    v = g.Vector(v[0], v[1], v[2])
    f = 'pytracer.geometry.utility:spherical_'
    ph, th = S.get(f + 'phi')(v), S.get(f + 'theta')(v)
    st = S.sin(th)
    r = l.pdf(S.point('p'), w)
    S.ensures('density', S.If(S.eq(st, 0), S.eq(r, 0), S.eq(r * (2 * S.pi * S.pi * st), ds.d)))
    for a in ds.at:
        S.ensures('density at the place of the direction', S.And(S.eq(a[0] * 2 * S.pi, ph), S.eq(a[1] * S.pi, th)))
    ray = g.RayDifferential(S.point('o'), w)
    e = l.le(ray)
    if un is not None:
        # a unit vector is its own normalisation
        x = un.seen[-1]
        S.ensures('direction of the ray', same(S, x[0], v))
        v = g.Vector(x[2][0], x[2][1], x[2][2])
        ph, th = S.get(f + 'phi')(v), S.get(f + 'theta')(v)
    S.ensures('colour of the map', S.And(len(mp.at) > 0, *[S.eq(e[k], mp.colour[k]) for k in range(3)]))
    for a in mp.at:
        S.ensures('radiance at the place of the direction', S.And(S.eq(a[0] * 2 * S.pi, ph), S.eq(a[1] * S.pi, th)))


@contract(P, [L + ':InfiniteAreaLight.sample_r'], weight=2, **O)
def environment_emits(S):
    """rays come from the sampled place of the map through a disk that covers the scene"""
    g = S.mod(G)
    l, mp, ds, E, made = sky(S)
    p, eps, time, ls = setting(S)
    sc = Region(S)
    w, st = heaven(S, l, ds)
    v1, v2 = S.real('v1', 0, 1), S.real('v2', 0, 1)
    used = []
    if S.symbolic:
        disk = [S.fresh('d1'), S.fresh('d2')]
        S.stub(MC + ':concentric_sample_disk', lambda a, b: used.append((a, b)) or tuple(disk))
        frame = [S.vec('va'), S.vec('vb')]
        S.stub(G + ':coordinate_system', lambda v: used.append(v) or (v, frame[0], frame[1]))
        if S.choice('black', [False, True]):
            ds.p = S.num(0)
    else:
        disk = S.get(MC + ':concentric_sample_disk')(v1, v2)
        frame = g.coordinate_system(g.Vector(*w))[1:]
    res = l.sample_r(sc, ls, v1, v2, time)
    ray, ns, pdf, em = res
    S.ensures('place from the numbers', S.And(len(ds.used) == 1, S.eq(ds.used[0][0], ls.u_pos[0]), S.eq(ds.used[0][1], ls.u_pos[1])))
    if ray is None:
        S.ensures('nothing only where the density is nil', S.And(S.eq(ds.p, 0), S.eq(pdf, 0), em.is_black()))
        return
    leaving(S, ray, [sc.ctr[i] + sc.rad * (disk[0] * frame[0][i] + disk[1] * frame[1][i] + w[i]) for i in range(3)], [-w[i] for i in range(3)], 0, time)
    if S.symbolic:
        S.ensures('disk from the other random numbers, frame around the direction', S.And(len(used) == 2, *[S.And(S.eq(x[0], v1), S.eq(x[1], v2)) if isinstance(x, tuple) else same(S, x, w) for x in used]))
    S.ensures('normal along the ray', S.And(same(S, ns, ray.d), type(ns) is g.Normal))
    S.ensures('density over solid angle and disk', S.If(S.eq(st, 0), S.eq(pdf, 0), S.eq(pdf * (2 * S.pi * S.pi * st) * S.pi * sc.rad * sc.rad, ds.p)))
    texel(S, 'radiance', em, mp, ds.uv)


@contract(P, [L + ':ProjectionLight.__init__'], **O)
def projection_window(S):
    """the window has the shape of the image, its shorter side spans the field of view, and the cone just contains it"""
    m = S.mod(L)
    h, w = S.int('height', 1, 64), S.int('width', 1, 64)
    made = []
    mp = Map(S)
    if S.symbolic:
        img = Rec(shape=(h, w, 3))
        S.stub('pytracer.light.light:np.shape', lambda a: a.shape)
        S.stub('pytracer.utility.imageio:read_image', lambda n: made.append(n) or img)
        S.stub('pytracer.texture:MIPMap', lambda kind, i, *a, **k: made.append(i) or mp)
    else:
        import pytracer.utility.imageio as io
        import pytracer.texture as tx
        import numpy
        img = numpy.zeros((int(h), int(w), 3))
        old = io.read_image, tx.MIPMap
        io.read_image, tx.MIPMap = (lambda n: made.append(n) or img), (lambda kind, i, *a, **k: made.append(i) or mp)
    fov = S.real('fov', 20, 120)
    tg = tangent(S, fov)
    try:
        l = m.ProjectionLight(placed(S), rgb(S, 'I'), 'picture', fov)
    finally:
        if not S.symbolic:
            io.read_image, tx.MIPMap = old
    S.ensures('map of the image', len(made) == 2 and made[0] == 'picture' and made[1] is img and l.projMap is mp)
    S.ensures('centred', S.And(S.eq(l.scr_x0, -l.scr_x1), S.eq(l.scr_y0, -l.scr_y1)))
    S.ensures('in the proportion of the image', S.eq(l.scr_x1 * h, l.scr_y1 * w))
    S.ensures('shorter side of length one', S.eq(S.min(l.scr_x1, l.scr_y1), 1))
    c = l.cos_width
    S.ensures('cone through the corners', S.And(S.lt(0, c), S.eq(c * c * (1 + tg * tg * (l.scr_x1 * l.scr_x1 + l.scr_y1 * l.scr_y1)), 1)))
