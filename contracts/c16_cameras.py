"""C16: cameras: the ray of every sample, its differentials, lens and time."""
from pyvc.api import contract
from contracts.c05_transform import affine

C = 'pytracer.camera.'
PJ = C + 'projective'
EN = C + 'environment'
CA = C + 'camera'
P = 'C16'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Moving(object):
    """camera placement: notes the times at which rays are mapped.  Symbolically the ray given to it is what is specified (Transform is
    under contract in C05); on the real code it is an arbitrary affine map"""

    def __init__(self, S, t):
        self.S, self.startTransform, self.endTransform, self.times, self.given, self.out = S, t, t, [], [], []
        self.animated = True

    def __call__(self, a, b=None):
        if b is not None:
            self.times.append(a)
            return self.startTransform(b)
        G = self.S.mod('pytracer.geometry')
        self.times.append(a.time)
        self.given.append(G.RayDifferential.from_rd(a) if isinstance(a, G.RayDifferential) else G.Ray.from_ray(a))
        r = self.startTransform(a)
        r.time = a.time
        self.out.append(r)
        return r

    def interpolate(self, time):
        self.times.append(time)
        return self.startTransform


def stage(S, motion=True):
    f = Rec(xResolution=S.int('xr', 1, 64), yResolution=S.int('yr', 1, 64))
    o, d = S.real('open', -2, 2), S.real('shutter', 0, 3)
    smp = S.mod('pytracer.sampler.sample').CameraSample(S.real('X', -2, 66), S.real('Y', -2, 66), S.real('lu', 0, 1), S.real('lv', 0, 1), S.real('ts', 0, 1))
    return f, o, d, smp


def place(S):
    tr = S.mod('pytracer.transform')
    return Moving(S, affine(S, 'w') if not S.symbolic else tr.Transform())


def window(S):
    w = [S.real('w0', -3, 0), S.real('w1', .5, 3), S.real('w2', -3, 0), S.real('w3', .5, 3)]
    return w


def screen(S, w, f, X, Y):
    """screen position of a raster position: columns run from w0 to w1, rows from w3 down to w2"""
    return (w[0] + S.div(X * (w[1] - w[0]), f.xResolution), w[3] - S.div(Y * (w[3] - w[2]), f.yResolution))


def camera(S, kind, lens):
    m = S.mod(PJ)
    f, o, d, smp = stage(S)
    w = window(S)
    mv = place(S)
    rad = S.real('lens', .25, 2) if lens else S.num(0)
    foc = S.real('focal', .5, 8)
    if kind == 'ortho':
        return m.OrthoCamera(mv, w, o, o + d, rad, foc, f), f, o, d, smp, w, mv, rad, foc, None
    fov = S.real('fov', 10, 150)
    t = tangent(S, fov)
    cam = m.PerspectiveCamera(mv, w, o, o + d, rad, foc, fov, f)
    return cam, f, o, d, smp, w, mv, rad, foc, t


def tangent(S, fov):
    h = fov * S.pi / 360
    if S.symbolic:
        S.requires(S.And(S.lt(0, S.sin(h)), S.lt(0, S.cos(h))))
    return S.div(S.sin(h), S.cos(h))


class Raster(object):
    """contract of the raster-to-camera map (contract raster): raster positions go to the near plane, scaled and shifted per axis"""

    def __init__(self, S, kind):
        self.S, self.n = S, S.num('0.001') if kind != 'ortho' else S.num(0)
        self.k = [S.real('k%d' % i) for i in range(4)]

    def __call__(self, p):
        G, k = self.S.mod('pytracer.geometry'), self.k
        if isinstance(p, G.Vector):
            return G.Vector(k[0] * p.x, k[2] * p.y, 0.)
        return G.Point(k[0] * p.x + k[1], k[2] * p.y + k[3], self.n)


def rig(S, kind, lens):
    """a constructed camera; symbolically any screen mapping that satisfies the contract of the constructor"""
    if not S.symbolic:
        c = camera(S, kind, lens)
        return c, lambda X, Y: expect_ray(S, c, kind, None, X, Y)
    m = S.mod(PJ)
    f, o, d, smp = stage(S)
    mv, rad, foc = place(S), S.real('lens', .25, 2) if lens else S.num(0), S.real('focal', .5, 8)
    K = m.OrthoCamera if kind == 'ortho' else m.PerspectiveCamera
    cam = K.__new__(K)
    G = S.mod('pytracer.geometry')
    cam.c2w, cam.s_open, cam.s_close, cam.film, cam.lens_rad, cam.focal_dist = mv, o, o + d, f, rad, foc
    r = cam.r2c = Raster(S, kind)
    cam.dxCam, cam.dyCam = G.Vector(r.k[0], 0., 0.), G.Vector(0., r.k[2], 0.)
    c = (cam, f, o, d, smp, None, mv, rad, foc, None)

    def expect(X, Y):
        x, y = r.k[0] * X + r.k[1], r.k[2] * Y + r.k[3]
        if kind == 'ortho':
            return [x, y, S.num(0)], [S.num(0), S.num(0), S.num(1)]
        return [S.num(0)] * 3, [S.div(x, r.n), S.div(y, r.n), S.num(1)]
    return c, expect


def expect_ray(S, c, kind, smp, X, Y):
    """camera space: origin and a (not normalised) direction of the ray for raster position (X, Y)"""
    cam, f, o, d, _, w, mv, rad, foc, t = c
    sx, sy = screen(S, w, f, X, Y)
    if kind == 'ortho':
        org, dr = [sx, sy, S.num(0)], [S.num(0), S.num(0), S.num(1)]
    else:
        org, dr = [S.num(0)] * 3, [sx * t, sy * t, S.num(1)]
    return org, dr


def lens_point(S, c, smp):
    u, v = S.mod('pytracer.montecarlo').concentric_sample_disk(smp.lens_u, smp.lens_v)
    return [u * c[7], v * c[7], S.num(0)]


def lens_stub(S):
    """contract of the warp: some point of the unit disk (C08)"""
    if S.symbolic:
        got = {}

        def disk(u, v):
            if 'p' not in got:
                got['p'] = (S.fresh('du', -1, 1), S.fresh('dv', -1, 1))
            return list(got['p'])
        S.stub('pytracer.montecarlo.utility:concentric_sample_disk', disk)


def same_ray(S, name, mv, r, field, org, dr):
    """the ray given to the placement starts at org with the unit direction along dr; the ray returned is its image"""
    S.ensures(name + ': image of one placement', len(mv.given) == 1 and r is mv.out[0])
    g = mv.given[0]
    o, d = getattr(g, field[0]), getattr(g, field[1])
    S.ensures(name + ': origin', S.veq(o, org))
    S.ensures(name + ': along the direction', S.And(*[S.eq(x, 0) for x in S.cross(d, dr)]))
    S.ensures(name + ': forward', S.And(S.lt(0, dr[2]), S.lt(0, d[2])))
    S.ensures(name + ': unit', S.eq(S.dot(d, d), 1))


def fixed_fields(S, c, r, smp, mv):
    G = S.mod('pytracer.geometry')
    cam, f, o, d = c[:4]
    S.ensures('unlimited range', S.And(S.eq(r.mint, 0), r.maxt == S.inf, S.eq(r.depth, 0)))
    t = o + smp.time * d
    S.ensures('time within the shutter interval', S.eq(r.time, t))
    S.ensures('placed at that time', S.And(len(mv.times) > 0, *[S.eq(x, t) for x in mv.times]))


@contract(P, [PJ + ':ProjectiveCamera.__init__', PJ + ':OrthoCamera.__init__', PJ + ':PerspectiveCamera.__init__', CA + ':Camera.__init__'], **O)
def raster(S):
    """raster positions map to the screen window: columns left to right, rows top to bottom, on the near plane scaled by the tangent of
    half the field of view; the pixel steps are those of the map"""
    kind = S.choice('kind', ['ortho', 'perspective'])
    lens = S.choice('lens', [0, 1])
    c = camera(S, kind, lens)
    cam, f, o, d, smp, w, mv, rad, foc, t = c
    G = S.mod('pytracer.geometry')
    X, Y = smp.imageX, smp.imageY
    p = cam.r2c(G.Point(X, Y, 0.))
    sx, sy = screen(S, w, f, X, Y)
    k = S.num(1) if kind == 'ortho' else t * S.num('0.001')
    S.ensures('screen position', S.veq(p, [sx * k, sy * k, S.num(0 if kind == 'ortho' else '0.001')]))
    S.ensures('column step', S.veq(cam.dxCam, [S.div((w[1] - w[0]) * k, f.xResolution), 0, 0]))
    S.ensures('row step', S.veq(cam.dyCam, [0, -S.div((w[3] - w[2]) * k, f.yResolution), 0]))
    S.ensures('parameters', S.And(cam.c2w is mv, cam.film is f, S.eq(cam.s_open, o), S.eq(cam.s_close, o + d), S.eq(cam.lens_rad, rad), S.eq(cam.focal_dist, foc)))


@contract(P, [PJ + ':OrthoCamera.generate_ray', PJ + ':PerspectiveCamera.generate_ray'], shards=2, **O)
def rays(S):
    """without a lens the ray is that of the pinhole (or parallel) projection through the sample's place in the screen window; with a
    lens it starts at the sampled lens point and passes through the focal point of that ray"""
    kind = S.choice('kind', ['ortho', 'perspective'])
    lens = S.choice('lens', [0, 1])
    lens_stub(S)
    c, expect = rig(S, kind, lens)
    cam, smp, mv = c[0], c[4], c[6]
    w, r = cam.generate_ray(smp)
    S.ensures('weight', S.eq(w, 1))
    org, dr = expect(smp.imageX, smp.imageY)
    if lens:
        lp = lens_point(S, c, smp)
        org, dr = lp, [org[k] + c[8] * dr[k] - lp[k] for k in range(3)]
    same_ray(S, kind, mv, r, ('o', 'd'), org, dr)
    fixed_fields(S, c, r, smp, mv)


@contract(P, [PJ + ':OrthoCamera.generate_ray_differential', PJ + ':PerspectiveCamera.generate_ray_differential'], shards=3, weight=2, **O)
def differentials(S):
    """the ray of the sample together with the rays of the samples one pixel to the right and one below"""
    kind = S.choice('kind', ['ortho', 'perspective'])
    lens = S.choice('lens', [0, 1])
    lens_stub(S)
    c, expect = rig(S, kind, lens)
    cam, smp, mv = c[0], c[4], c[6]
    w, r = cam.generate_ray_differential(smp)
    S.ensures('weight', S.eq(w, 1))
    S.ensures('with differentials', r.has_differentials is True)
    lp, foc = lens_point(S, c, smp), c[8]
    for n, a, b, fl in (('ray', 0, 0, ('o', 'd')), ('right', 1, 0, ('rxOrigin', 'rxDirection')), ('below', 0, 1, ('ryOrigin', 'ryDirection'))):
        org, dr = expect(smp.imageX + a, smp.imageY + b)
        if lens:
            org, dr = lp, [org[k] + foc * dr[k] - lp[k] for k in range(3)]
        same_ray(S, n, mv, r, fl, org, dr)
    fixed_fields(S, c, r, smp, mv)


@contract(P, [EN + ':EnvironmentCamera.generate_ray', EN + ':EnvironmentCamera.__init__'], **O)
def environment(S):
    """rows are polar angles from the y axis, columns azimuths, over the whole sphere; unit directions from the camera centre"""
    f, o, d, smp = stage(S)
    mv = place(S)
    cam = S.mod(EN).EnvironmentCamera(mv, o, o + d, f)
    w, r = cam.generate_ray(smp)
    S.ensures('weight', S.eq(w, 1))
    th, ph = S.div(S.pi * smp.imageY, f.yResolution), S.div(2 * S.pi * smp.imageX, f.xResolution)
    dr = [S.sin(th) * S.cos(ph), S.cos(th), S.sin(th) * S.sin(ph)]
    T = mv.startTransform.m
    for i in range(3):
        S.ensures('from the centre', S.eq(r.o[i], T[i, 3]))
        S.ensures('direction', S.eq(r.d[i], T[i, 0] * dr[0] + T[i, 1] * dr[1] + T[i, 2] * dr[2]))
    fixed_fields(S, (cam, f, o, d), r, smp, mv)


@contract(P, [PJ + ':PinholeCamera.generate_ray', PJ + ':PinholeCamera.__init__'], **O)
def pinhole(S):
    """from the film point through the pinhole on the axis"""
    f, o, d, smp = stage(S)
    mv = place(S)
    foc = S.real('focal', .5, 8)
    cam = S.mod(PJ).PinholeCamera(mv, foc, f)
    w, r = cam.generate_ray(smp)
    T = mv.startTransform.m
    S.ensures('weight', S.eq(w, 1))
    for i in range(3):
        S.ensures('from the film', S.eq(r.o[i], T[i, 0] * smp.imageX + T[i, 1] * smp.imageY + T[i, 3]))
        S.ensures('through the pinhole', S.eq(r.o[i] + r.d[i], T[i, 2] * foc + T[i, 3]))


@contract(P, [CA + ':Camera.generate_ray_differential', CA + ':Camera.__init__'], **O)
def general_differentials(S):
    """for any camera: the rays of the sample and of its right and lower neighbours; no weight when a neighbour has none"""
    G = S.mod('pytracer.geometry')
    m = S.mod(CA)
    k = [S.real('k%d' % i, -2, 2) for i in range(8)]
    weights = [S.real('wt%d' % i, 0, 1) for i in range(3)]
    asked = []

    class Cam(m.Camera):
        def generate_ray(self, s):
            asked.append(s)
            x, y = s.imageX, s.imageY
            return weights[len(asked) - 1], G.Ray(G.Point(k[0] * x + k[1] * y, k[2] + s.lens_u, k[3] * s.lens_v), G.Vector(k[4] + x, k[5] * y, k[6] + x * k[7]), 0., S.inf, 0, s.time)
    f, o, d, smp = stage(S)
    base = S.mod('pytracer.sampler.sample').Sample(None, None, None, None, smp.imageX, smp.imageY, smp.lens_u, smp.lens_v, smp.time)
    cam = Cam(None, o, o + d, f)
    w, r = cam.generate_ray_differential(base)
    S.ensures('three rays', len(asked) == 3)
    S.ensures('sample unchanged', S.And(S.eq(base.imageX, smp.imageX), S.eq(base.imageY, smp.imageY)))
    full = S.And(S.ne(weights[1], 0), S.ne(weights[2], 0))
    S.ensures('weight', S.eq(w, S.If(full, weights[0], 0)))
    S.ensures('differentials exactly when usable', S.Iff(r.has_differentials, full))
    for n, a, b, ro, rd in (('ray', 0, 0, r.o, r.d), ('right', 1, 0, r.rxOrigin, r.rxDirection), ('below', 0, 1, r.ryOrigin, r.ryDirection)):
        x, y = smp.imageX + a, smp.imageY + b
        S.ensures(n + ': origin', S.veq(ro, [k[0] * x + k[1] * y, k[2] + smp.lens_u, k[3] * smp.lens_v]))
        S.ensures(n + ': direction', S.veq(rd, [k[4] + x, k[5] * y, k[6] + x * k[7]]))
    S.ensures('time', S.eq(r.time, smp.time))
