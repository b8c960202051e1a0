"""C24: materials: what reflection a surface has at a point; bump mapping; copies of the geometry of a hit."""
from pyvc.api import contract
from contracts.c17_lights import Rec
from contracts.c18_volume import colour
from contracts.c23_integrators import rgb

M = 'pytracer.material.material'
D = 'pytracer.geometry.diffgeom'
R = 'pytracer.reflection'
V = 'pytracer.volume'
P = 'C24'
O = dict(div='assume', sqrt='assume', tol=1e-6)
EPS = 1e-5
FIELDS = ('p', 'dpdu', 'dpdv', 'dndu', 'dndv', 'nn', 'u', 'v', 'dudx', 'dvdx', 'dudy', 'dvdy', 'dpdx', 'dpdy')


# ------------------------------------------------------------------ geometry
def geometry(S, name, shape=None):
    """the geometry of a hit, every field arbitrary"""
    g = S.mod('pytracer.geometry')
    d = g.DifferentialGeometry.__new__(g.DifferentialGeometry)
    r = lambda k: S.real(name + k, -2, 2) if not S.symbolic else S.real(name + k)
    for k in ('p',):
        setattr(d, k, S.point(name + k))
    for k in ('dpdu', 'dpdv', 'dpdx', 'dpdy'):
        setattr(d, k, S.vec(name + k))
    for k in ('dndu', 'dndv', 'nn'):
        setattr(d, k, S.normal(name + k))
    for k in ('u', 'v', 'dudx', 'dvdx', 'dudy', 'dvdy'):
        setattr(d, k, r(k))
    d.shape = shape if shape is not None else Rec(ro=False, transform_swaps_handedness=False)
    positive(S, S.cross(d.dpdu, d.dpdv))
    return d


def positive(S, x):
    q = S.dot(x, x)
    S.requires(S.And(S.lt(0, q), S.lt(0, S.sqrt(q))) if S.symbolic else q > .01)


def alike(S, a, b, depth=8):
    """same values throughout: numbers, arrays, lists, objects of the same class by their attributes"""
    if a is b:
        return True
    if depth == 0:
        raise RuntimeError('too deep')
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a is b or (a == b and type(a) is type(b))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and S.And(*[alike(S, x, y, depth - 1) for x, y in zip(a, b)])
    if hasattr(a, '__len__'):
        return type(a) is type(b) and len(a) == len(b) and S.And(*[S.eq(x, y) for x, y in zip(a, b)])
    if not type(a).__module__.startswith('pytracer'):
        return S.isnum(a) and S.isnum(b) and S.eq(a, b)
    if type(a) is not type(b):
        return False
    if set(a.__dict__) != set(b.__dict__):
        return False
    return S.And(*[alike(S, a.__dict__[k], b.__dict__[k], depth - 1) for k in a.__dict__])


def same_geometry(S, a, b):
    out = [a.shape is b.shape]
    for k in FIELDS:
        x, y = getattr(a, k), getattr(b, k)
        out.append(S.And(*[S.eq(x[i], y[i]) for i in range(3)]) if hasattr(x, '__len__') and len(x) == 3 else S.eq(x, y))
    return S.And(*out)


@contract(P, D + ':DifferentialGeometry.copy', **O)
def copied(S):
    """a copy agrees in every field, and what is done to it does not reach the original"""
    d = geometry(S, 'd')
    c = d.copy()
    S.ensures('class', type(c) is type(d) and c is not d)
    S.ensures('every field', same_geometry(S, c, d))
    s = S.snap(d)
    for k in ('p', 'dpdu', 'dpdv', 'dndu', 'dndv', 'nn', 'dpdx', 'dpdy'):
        x = getattr(c, k)
        x[0] = x[0] + 1
    c.u = c.dudx = S.num(7)
    S.ensures('storage of its own', S.unchanged(d, s))


# ------------------------------------------------------------------ bump mapping
@contract(P, M + ':Material.bump', weight=3, shards=3, time=2, **O)
def bump(S):
    """the surface displaced along its normal by the texture: tangents by finite differences over half the size of the pixel (or a hundredth), the normal
    that of the tangents, on the side of the geometric normal; the rest is that of the shading geometry"""
    g = S.mod('pytracer.geometry')
    sh = S.choice('shape', [(False, False), (True, False), (False, True), (True, True)])
    d = geometry(S, 'd', Rec(ro=sh[0], transform_swaps_handedness=sh[1]))
    for n, k in (('none in u', ('dudx', 'dudy')), ('none in v', ('dvdx', 'dvdy'))):
        if not S.symbolic and S.choice(n, [False, True]):
            for x in k:
                setattr(d, x, S.num(0))
    ng = S.normal('ng')
    dgg = Rec(nn=ng)
    half, hund = S.num('.5'), S.num('.01')
    step = []
    for a, b in ((d.dudx, d.dudy), (d.dvdx, d.dvdy)):
        s = half * (S.abs(a) + S.abs(b))
        if not S.symbolic:
            S.requires(s == 0 or s > .001)
        step.append(hund if S.decide(S.eq(s, 0)) else s)
    du, dv = step
    val = dict(u=S.real('at u', -1, 1), v=S.real('at v', -1, 1), here=S.real('here', -1, 1))
    asked = []
    before = S.snap(d)
    c = S.cross(d.dpdu, d.dpdv)
    h = val['here']
    want = [[t[i] + S.div(val[k] - h, s) * d.nn[i] + h * tn[i] for i in range(3)] for k, s, t, tn in (('u', du, d.dpdu, d.dndu), ('v', dv, d.dpdv, d.dndv))]
    for x in ([c[i] + du * d.dndu[i] for i in range(3)], [c[i] + dv * d.dndv[i] for i in range(3)], S.cross(want[0], want[1])):
        positive(S, x)

    def texture(x):
        k = 'u' if not S.decide(S.eq(x.u, d.u)) else 'v' if not S.decide(S.eq(x.v, d.v)) else 'here'
        asked.append(k)
        t, tn, s = (d.dpdu, d.dndu, du) if k == 'u' else (d.dpdv, d.dndv, dv)
        w = 0 if k == 'here' else s
        S.ensures('texture coordinates ' + k, S.And(S.eq(x.u, d.u + (du if k == 'u' else 0)), S.eq(x.v, d.v + (dv if k == 'v' else 0))))
        S.ensures('position ' + k, S.And(*[S.eq(x.p[i], d.p[i] + w * t[i]) for i in range(3)]))
        n = d.nn if k == 'here' else g.normalize(g.Normal(*[c[i] + s * tn[i] for i in range(3)]))
        S.ensures('normal ' + k, S.And(*[S.eq(x.nn[i], n[i]) for i in range(3)]))
        S.ensures('filtered as there ' + k, S.And(*[S.eq(getattr(x, f), getattr(d, f)) for f in ('dudx', 'dvdx', 'dudy', 'dvdy')] + [
            S.eq(getattr(x, f)[i], getattr(d, f)[i]) for f in ('dpdx', 'dpdy', 'dpdu', 'dpdv', 'dndu', 'dndv') for i in range(3)]))
        return val[k]
    r = S.mod(M).Material.bump(texture, dgg, d)
    S.ensures('three look-ups', sorted(asked) == ['here', 'u', 'v'])
    S.ensures('shading geometry not changed', S.unchanged(d, before))
    S.ensures('tangents', S.And(*[S.eq(r.dpdu[i], want[0][i]) for i in range(3)] + [S.eq(r.dpdv[i], want[1][i]) for i in range(3)]))
    n = g.normalize(g.Vector(*S.cross(want[0], want[1])))
    f = -1 if sh[0] != sh[1] else 1
    n = [f * n[i] for i in range(3)]
    flip = -1 if S.decide(S.lt(S.dot(n, ng), 0)) else 1
    S.ensures('normal of the tangents, facing as the surface', S.And(*[S.eq(r.nn[i], flip * n[i]) for i in range(3)]))
    S.ensures('kinds', type(r.nn) is g.Normal)
    S.ensures('the rest', S.And(r.shape is d.shape, *[alike(S, getattr(r, k), getattr(d, k)) for k in FIELDS if k not in ('dpdu', 'dpdv', 'nn')]))


# ------------------------------------------------------------------ materials
class Scene(object):
    """textures asked about one geometry: the shading geometry, or the bumped one where there is a bump map"""

    def __init__(self, S, bump=True):
        self.S = S
        self.m, self.r = S.mod(M), S.mod(R)
        self.ng = S.normal('ng')
        self.dgg, self.dgs = Rec(nn=self.ng), geometry(S, 'd')
        self.bumped = bump and S.choice('bump map', [False, True])
        self.at = geometry(S, 'b') if self.bumped else self.dgs
        self.map = (lambda d: S.num(0)) if self.bumped else None
        self.calls = []
        self.before = S.snap([self.dgs, self.at])

    def __enter__(self):
        S = self.S

        def bump(d, a, b):
            self.calls.append(1)
            S.ensures('bumped by its map, over the shading geometry', d is self.map and a is self.dgg and b is self.dgs, 'requires')
            return self.at
        if S.symbolic:
            S.stub(M + ':Material.bump', bump)
            # black by contract (C15)
            S.stub('pytracer.spectral.spectrum:CoefficientSpectrum.is_black', lambda c: self.black(c))
            S.stub('pytracer.utility.utility:is_black', lambda c: S.decide(S.And(*[S.lt(S.abs(c[k]), S.num('1e-5')) for k in range(3)])))
        else:
            self.old = self.m.Material.__dict__['bump']
            self.m.Material.bump = staticmethod(bump)
        return self

    def __exit__(self, *a):
        if not self.S.symbolic:
            self.m.Material.bump = self.old

    def texture(self, v):
        S = self.S

        def f(d):
            S.ensures('textures at the point', same_geometry(S, d, self.at), 'requires')
            return v
        return f

    def spectrum(self, name, hi=2, opts=('any', 'black')):
        """a texture of colours, and its colour without what is below nil"""
        S = self.S
        if S.symbolic:
            c = rgb(S, name)
        else:
            k = S.choice(name + ' ', list(opts))
            c = colour(S, lambda i: 0.) if k == 'black' else colour(S, lambda i: 1.) if k == 'white' else rgb(S, name, -.5, hi)
        return self.texture(c), colour(S, lambda i: S.max(c[i], 0))

    def raw(self, name, lo=None, hi=2):
        c = rgb(self.S, name, lo, hi)
        return self.texture(c), c

    def number(self, name, lo=None, hi=None):
        x = self.S.real(name, lo, hi)
        return self.texture(x), x

    def black(self, c):
        S = self.S
        return S.decide(S.And(*[S.lt(c[k], S.num('1e-5')) for k in range(3)]))

    def check(self, b, parts, eta=1.):
        S = self.S
        want = self.r.BSDF(self.at, self.ng, eta)
        for p in parts:
            want.push_back(p)
        S.ensures('as many components', len(b.bdfs) == len(parts) and S.truth(S.eq(b.n_BDF, len(parts))))
        S.ensures('components', [type(x).__name__ for x in b.bdfs] == [type(x).__name__ for x in parts])
        S.ensures('their coefficients', S.And(*[alike(S, x, y) for x, y in zip(b.bdfs, parts)]))
        S.ensures('over the shading geometry', S.And(same_geometry(S, b.dgs, self.at), *[alike(S, getattr(b, k), getattr(want, k)) for k in ('nn', 'sn', 'tn', 'ng')]))
        S.ensures('index of refraction', S.eq(b.eta, eta))
        S.ensures('bumped once', len(self.calls) == (1 if self.bumped else 0))
        S.ensures('geometry not changed', S.unchanged([self.dgs, self.at], self.before))


def inverse(S, x):
    return S.div(S.num(1) if S.symbolic else 1., x)


@contract(P, [M + ':MatteMaterial.__init__', M + ':MatteMaterial.get_bsdf'], **O)
def matte(S):
    """diffuse: Lambertian without roughness, else Oren-Nayar with the roughness kept within 0 and 90 degrees"""
    w = Scene(S)
    kd, c = w.spectrum('kd')
    sg, s = w.number('sigma', -30, 120) if S.symbolic or S.choice('rough', [False, True]) else (w.texture(0.), 0.)
    with w:
        b = w.m.MatteMaterial(kd, sg, w.map).get_bsdf(w.dgg, w.dgs)
        s = S.min(S.max(s, 0), 90)
        w.check(b, [w.r.Lambertian(c) if S.decide(S.eq(s, 0)) else w.r.OrenNayar(c, s)])


@contract(P, [M + ':PlasticMaterial.__init__', M + ':PlasticMaterial.get_bsdf'], **O)
def plastic(S):
    """diffuse, and a glossy dielectric of index 1.5 whose exponent is the reciprocal of the roughness"""
    w = Scene(S)
    kd, c = w.spectrum('kd')
    ks, s = w.spectrum('ks')
    rt, r = w.number('rough', .05, 1)
    S.requires(S.ne(r, 0))
    with w:
        b = w.m.PlasticMaterial(kd, ks, rt, w.map).get_bsdf(w.dgg, w.dgs)
        w.check(b, [w.r.Lambertian(c), w.r.Microfacet(s, w.r.FresnelDielectric(1.5, 1.), w.r.Blinn(inverse(S, r)))])


@contract(P, [M + ':MirrorMaterial.__init__', M + ':MirrorMaterial.get_bsdf'], **O)
def mirror(S):
    """full specular reflection, none where it is black"""
    w = Scene(S)
    kr, c = w.spectrum('kr')
    with w:
        b = w.m.MirrorMaterial(kr, w.map).get_bsdf(w.dgg, w.dgs)
        w.check(b, [] if w.black(c) else [w.r.SpecularReflection(c, w.r.FresnelFullReflect())])


@contract(P, [M + ':MetalMaterial.__init__', M + ':MetalMaterial.get_bsdf'], **O)
def metal(S):
    """a glossy conductor"""
    w = Scene(S)
    et, e = w.raw('eta', .2)
    kt, k = w.raw('k', .2)
    rt, r = w.number('rough', .05, 1)
    S.requires(S.ne(r, 0))
    with w:
        b = w.m.MetalMaterial(et, kt, rt, w.map).get_bsdf(w.dgg, w.dgs)
        w.check(b, [w.r.Microfacet(colour(S, lambda i: S.num(1) if S.symbolic else 1.), w.r.FresnelConductor(e, k), w.r.Blinn(inverse(S, r)))])


@contract(P, [M + ':GlassMaterial.__init__', M + ':GlassMaterial.get_bsdf'], **O)
def glass(S):
    """specular reflection and transmission between the outside and the index of refraction, none where they are black"""
    w = Scene(S)
    kr, r = w.spectrum('kr')
    kt, t = w.spectrum('kt')
    it, i = w.number('index', 1, 3)
    with w:
        b = w.m.GlassMaterial(kr, kt, it, w.map).get_bsdf(w.dgg, w.dgs)
        parts = [] if w.black(r) else [w.r.SpecularReflection(r, w.r.FresnelDielectric(1., i))]
        if not w.black(t):
            parts.append(w.r.SpecularTransmission(t, 1., i))
        w.check(b, parts, i)


@contract(P, [M + ':UberMaterial.__init__', M + ':UberMaterial.get_bsdf'], weight=2, shards=2, **O)
def uber(S):
    """what is not opaque passes straight; the rest is shared by diffuse, glossy, mirrored and refracted parts, each left out where it is black"""
    w = Scene(S)
    T = {n: w.spectrum(n) for n in ('kd', 'ks', 'kr', 'kt')}
    ot, o = w.spectrum('opacity', 1, ('any', 'black', 'white'))
    rt, r = w.number('rough', .05, 1)
    S.requires(S.ne(r, 0))
    et, e = w.number('eta', 1, 3)
    with w:
        b = w.m.UberMaterial(*[T[n][0] for n in ('kd', 'ks', 'kr', 'kt')] + [rt, ot, et, w.map]).get_bsdf(w.dgg, w.dgs)
        kd, ks, kr, kt = [colour(S, lambda i: o[i] * T[n][1][i]) for n in ('kd', 'ks', 'kr', 'kt')]
        parts = []
        if not S.decide(S.And(*[S.eq(o[i], 1) for i in range(3)])):
            parts.append(w.r.SpecularTransmission(colour(S, lambda i: 1 - o[i]), 1., 1.))
        if not w.black(kd):
            parts.append(w.r.Lambertian(kd))
        fr = w.r.FresnelDielectric(e, 1.)
        if not w.black(ks):
            parts.append(w.r.Microfacet(ks, fr, w.r.Blinn(inverse(S, r))))
        if not w.black(kr):
            parts.append(w.r.SpecularReflection(kr, fr))
        if not w.black(kt):
            parts.append(w.r.SpecularTransmission(kt, e, 1.))
        w.check(b, parts)


@contract(P, [M + ':SubsurfaceMaterial.__init__', M + ':SubsurfaceMaterial.get_bsdf', M + ':SubsurfaceMaterial.get_bssrdf', M + ':KdSubsurfaceMaterial.__init__',
              M + ':KdSubsurfaceMaterial.get_bsdf', M + ':KdSubsurfaceMaterial.get_bssrdf', M + ':Material.get_bssrdf'], **O)
def subsurface(S):
    """a specular dielectric coat over a medium given by its scaled coefficients, or by those found for a diffuse colour and a mean free path"""
    w = Scene(S)
    by = S.choice('given', ['coefficients', 'diffuse'])
    kr, r = w.spectrum('kr')
    et, e = w.number('eta', 1, 3)
    with w:
        if by == 'coefficients':
            at, a = w.raw('a', 0)
            st, s = w.raw('s', 0)
            sc = S.real('scale', .5, 3)
            mat = w.m.SubsurfaceMaterial(sc, kr, at, st, et, w.map)
        else:
            at, a = w.spectrum('a')
            st, s = w.number('mfp', .1, 2)
            mat = w.m.KdSubsurfaceMaterial(at, kr, st, et, w.map)
        b = mat.get_bsdf(w.dgg, w.dgs)
        w.check(b, [] if w.black(r) else [w.r.SpecularReflection(r, w.r.FresnelDielectric(1., e))])
        # the medium, below the shading geometry
        w.at = w.dgs
        if by == 'coefficients':
            x = mat.get_bssrdf(w.dgg, w.dgs)
            S.ensures('scaled coefficients', S.And(*[S.And(S.eq(x.sigma_a[i], sc * a[i]), S.eq(x.sigma_prime_s[i], sc * s[i])) for i in range(3)]))
        else:
            f, q = rgb(S, 'fa', 0, 1), rgb(S, 'fs', 0, 1)
            asked = []

            def find(*k):
                asked.append(k)
                return [f, q]
            mod = S.mod(V)
            old = mod.subsurface_from_diffuse
            mod.subsurface_from_diffuse = find
            try:
                x = mat.get_bssrdf(w.dgg, w.dgs)
            finally:
                mod.subsurface_from_diffuse = old
            S.ensures('found for colour, path and index', S.And(len(asked) == 1, alike(S, asked[0][0], a), S.eq(asked[0][1], s), S.eq(asked[0][2], e)))
            S.ensures('coefficients found', x.sigma_a is f and x.sigma_prime_s is q)
        S.ensures('index', S.eq(x.eta, e))
    S.ensures('no medium below other materials', w.m.MatteMaterial(None, None).get_bssrdf(w.dgg, w.dgs) is None)


@contract(P, [M + ':MixMaterial.__init__', M + ':MixMaterial.get_bsdf'], bounded='up to 3 components in either material', **O)
def mix(S):
    """every component of the first by the weight, then every component of the second by what remains to one"""
    w = Scene(S, False)
    n = [S.choice('n%d' % i, [0, 1, 2, 3]) for i in range(2)]
    parts = [[w.r.Lambertian(rgb(S, 'c%d%d' % (i, j), 0, 1)) for j in range(k)] for i, k in enumerate(n)]
    mats = []
    for i in range(2):
        b = w.r.BSDF(w.at if i == 0 else Rec(p=w.at.p, nn=S.normal('on'), dpdu=S.mod('pytracer.geometry').Vector(0., 0., 1.)), w.ng)
        for p in parts[i]:
            b.push_back(p)
        mats.append(Rec(get_bsdf=lambda a, c, b=b: (S.ensures('asked for the same point', a is w.dgg and c is w.dgs, 'requires'), b)[1]))
    c = rgb(S, 'scale', -.5, 1.5)

    def scale(d):
        S.ensures('weight at the point', same_geometry(S, d, w.dgs), 'requires')
        return c
    b = w.m.MixMaterial(mats[0], mats[1], scale).get_bsdf(w.dgg, w.dgs)
    s1 = colour(S, lambda i: S.max(c[i], 0))
    s2 = colour(S, lambda i: S.max(1 - s1[i], 0))
    w.check(b, [w.r.ScaledBDF(p, s1) for p in parts[0]] + [w.r.ScaledBDF(p, s2) for p in parts[1]])


@contract(P, M + ':MeasuredMaterial.get_bsdf', **O)
def measured(S):
    """the tabulated or the scattered samples of the material, whichever it has"""
    w = Scene(S)
    mat = w.m.MeasuredMaterial.__new__(w.m.MeasuredMaterial)
    kind = S.choice('kind', ['regular', 'scattered', 'none'])
    mat.bump_map = w.map
    mat.regular_data = [1, 2] if kind == 'regular' else None
    mat.n_theta_h, mat.n_theta_d, mat.n_phi_d = 90, 91, 180
    mat.theta_phi_tree, mat.theta_phi_samples = ('tree', ['samples']) if kind == 'scattered' else (None, None)
    with w:
        b = mat.get_bsdf(w.dgg, w.dgs)
        w.check(b, [w.r.ReHalfangleBRDF([1, 2], 90, 91, 180)] if kind == 'regular' else [w.r.IrIsotropicBRDF('tree', ['samples'])] if kind == 'scattered' else [])


@contract(P, M + ':MeasuredMaterial.__init__', concrete_only=True, n=40, bounded='files of up to 5 samples of up to 4 wavelengths', **O)
def measured_file(S):
    """each sample of a file becomes its remapped pair of directions and its colour; a file is read once, and only its own samples are shared; files that are
    missing, of another kind or of the wrong length are refused"""
    import math
    import os
    import shutil
    import tempfile
    import numpy
    m, r = S.mod(M), S.mod(R)
    g = S.mod('pytracer.geometry')
    T = S.mod('pytracer').Spectrum
    T.init()
    d = tempfile.mkdtemp()
    try:
        nw, ns = int(S.int('wavelengths', 1, 4)), int(S.int('samples', 1, 5))
        files = []
        for k in range(2):
            wl = [400. + 60 * i for i in range(nw)]
            rows = [[S.real('t%d%d%d' % (k, i, j), .1, 1.4) * (4 if j in (1, 3) else 1) for j in range(4)] + [S.real('v%d%d%d' % (k, i, j), 0, 1) for j in range(nw)] for i in range(ns)]
            os.mkdir(os.path.join(d, str(k)))
            f = os.path.join(d, str(k), 'a.brdf' if S.choice('case', [0, 1]) else 'a.BRDF')
            with open(f, 'w') as o:
                o.write('# a comment\n\n%d\n%s\n' % (nw, ' '.join('%r' % float(x) for x in wl)))
                for x in rows:
                    o.write(' '.join('%r' % float(y) for y in x) + '\n')
            files.append((f, wl, rows))
        again = S.choice('order', [(0, 1, 0, 1), (0, 0, 1, 0)])
        for k in again:
            f, wl, rows = files[k]
            mat = m.MeasuredMaterial(f)
            S.ensures('as many samples', len(mat.theta_phi_samples) == ns and mat.theta_phi_tree.n == ns and mat.regular_data is None)
            for i, x in enumerate(rows):
                wi = g.Vector(math.sin(x[0]) * math.cos(x[1]), math.sin(x[0]) * math.sin(x[1]), math.cos(x[0]))
                wo = g.Vector(math.sin(x[2]) * math.cos(x[3]), math.sin(x[2]) * math.sin(x[3]), math.cos(x[2]))
                p, c = r.brdf_remap(wo, wi), T.from_sampled(wl, x[4:])
                s = mat.theta_phi_samples[i]
                S.ensures('place and colour of the sample', S.And(*[S.And(S.eq(s.p[j], p[j]), S.eq(s.v[j], c[j]), S.eq(mat.theta_phi_tree.data[i][j], p[j])) for j in range(3)]))
        for name, text in (('gone.brdf', None), ('b.brdf', '1 500 .1 .2 .3 .4'), ('b.binary', ''), ('b.txt', '1')):
            f = os.path.join(d, name)
            if text is not None:
                open(f, 'w').close()
                with open(f, 'w') as o:
                    o.write(text)
            try:
                m.MeasuredMaterial(f)
                S.ensures('refused: ' + name, False)
            except (RuntimeError, IOError, NotImplementedError):
                pass
    finally:
        shutil.rmtree(d)
