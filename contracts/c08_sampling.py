"""C08: sampling warps and their densities.

A warp (u1, u2) -> x sends the uniform density on the unit square to the density 1 / |J|, J the area (solid angle) element
|dx/du1 x dx/du2|.  The contracts state  |J| * pdf(x) = 1  with the partial derivatives of the term the code returned, and
that the warp is onto the documented domain in the documented parametrisation (hence one-to-one)."""
from pyvc.api import contract
from pyvc import api

M = 'pytracer.montecarlo.utility'
G = 'pytracer.geometry'
P = 'C08'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)


def u12(S, open_=True):
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)
    if open_:
        S.requires(S.And(S.lt(0, u1), S.lt(u1, 1), S.lt(0, u2), S.lt(u2, 1)))
        if not S.symbolic:
            S.requires(.01 < u1 < .99 and .01 < u2 < .99)
    return u1, u2


def partials(S, f, u1, u2, n):
    """the partial derivatives of f at (u1, u2): exact for terms, difference quotients at run time"""
    if S.symbolic:
        r = f(u1, u2)
        return [S.diff(r[i], u1) for i in range(n)], [S.diff(r[i], u2) for i in range(n)]
    e = 1e-6
    a, b = f(u1 + e, u2), f(u1 - e, u2)
    c, d = f(u1, u2 + e), f(u1, u2 - e)
    return [(a[i] - b[i]) / (2 * e) for i in range(n)], [(c[i] - d[i]) / (2 * e) for i in range(n)]


def near(S, a, b, tol=2e-4):
    """equality of densities: exact for terms; difference quotients are compared with a tolerance"""
    if S.symbolic:
        return S.eq(a, b)
    return None if abs(a - b) <= tol * max(1., abs(a), abs(b)) else False


def solid_angle(S, name, f, u1, u2, pdf):
    """|dw/du1 x dw/du2| pdf = 1"""
    a, b = partials(S, f, u1, u2, 3)
    c = S.cross(a, b)
    S.ensures(name, near(S, S.dot(c, c) * pdf * pdf, 1))


def plane(S, name, f, u1, u2, pdf):
    a, b = partials(S, f, u1, u2, 2)
    j = (a[0] * b[1] - a[1] * b[0]) * pdf
    S.ensures(name, near(S, j * j, 1))


@contract(P, [M + ':uniform_sample_sphere', M + ':uniform_sphere_pdf'], **O)
def sphere(S):
    m = S.mod(M)
    u1, u2 = u12(S)
    v = m.uniform_sample_sphere(u1, u2)
    z = 1 - 2 * u1
    r = S.sqrt(1 - z * z)
    S.ensures('height falls uniformly from 1 to -1', S.eq(v.z, z))
    S.ensures('azimuth is u2 of a full turn', S.And(S.eq(v.x, r * S.cos(2 * S.pi * u2)), S.eq(v.y, r * S.sin(2 * S.pi * u2))))
    S.ensures('unit direction', S.eq(S.dot(v, v), 1))
    S.ensures('density', S.eq(m.uniform_sphere_pdf() * 4 * S.pi, 1))
    solid_angle(S, 'uniform over the sphere', m.uniform_sample_sphere, u1, u2, m.uniform_sphere_pdf())


@contract(P, [M + ':uniform_sample_sphere', M + ':uniform_sample_hemisphere'], **O)
def poles(S):
    """the ends of the range are defined"""
    m = S.mod(M)
    u2 = S.real('u2', 0, 1)
    top = S.bool('top')
    v = m.uniform_sample_sphere(S.num(0 if top else 1), u2)
    S.ensures('pole of the sphere', S.And(S.eq(v.x, 0), S.eq(v.y, 0), S.eq(v.z, 1 if top else -1)))
    v = m.uniform_sample_hemisphere(S.num(1), u2)
    S.ensures('pole of the hemisphere', S.And(S.eq(v.x, 0), S.eq(v.y, 0), S.eq(v.z, 1)))


@contract(P, [M + ':uniform_sample_hemisphere', M + ':uniform_hemisphere_pdf'], **O)
def hemisphere(S):
    m = S.mod(M)
    u1, u2 = u12(S)
    v = m.uniform_sample_hemisphere(u1, u2)
    r = S.sqrt(1 - u1 * u1)
    S.ensures('height is u1', S.eq(v.z, u1))
    S.ensures('azimuth is u2 of a full turn', S.And(S.eq(v.x, r * S.cos(2 * S.pi * u2)), S.eq(v.y, r * S.sin(2 * S.pi * u2))))
    S.ensures('unit direction', S.eq(S.dot(v, v), 1))
    S.ensures('density', S.eq(m.uniform_hemisphere_pdf() * 2 * S.pi, 1))
    solid_angle(S, 'uniform over the hemisphere', m.uniform_sample_hemisphere, u1, u2, m.uniform_hemisphere_pdf())


@contract(P, M + ':uniform_sample_disk', **O)
def disk(S):
    m = S.mod(M)
    u1, u2 = u12(S)
    r = m.uniform_sample_disk(u1, u2)
    S.ensures('squared radius is u1, azimuth is u2 of a full turn', S.And(
        S.eq(r[0], S.sqrt(u1) * S.cos(2 * S.pi * u2)), S.eq(r[1], S.sqrt(u1) * S.sin(2 * S.pi * u2))))
    plane(S, 'uniform over the disk', m.uniform_sample_disk, u1, u2, 1 / S.pi)


def square(S):
    """a point of the unit square off its centre, given by centred coordinates"""
    sx, sy = S.real('sx', -1, 1), S.real('sy', -1, 1)
    S.requires(S.Or(S.ne(sx, 0), S.ne(sy, 0)))
    return sx, sy, (sx + 1) / 2, (sy + 1) / 2


def shirley(S, sx, sy, p):
    """concentric squares go to concentric circles, eighths of the square to eighths of the disk (a negative radius is the
    opposite direction)"""
    a, b = S.abs(sx), S.abs(sy)

    def form(r, th):
        return S.And(S.eq(p[0], r * S.cos(th)), S.eq(p[1], r * S.sin(th)))
    cases = []
    if S.symbolic or sx:
        cases.append(S.And(S.le(b, a), form(sx, S.pi / 4 * S.div(sy, sx))))
    if S.symbolic or sy:
        cases.append(S.And(S.le(a, b), form(sy, S.pi / 2 - S.pi / 4 * S.div(sx, sy))))
    return S.Or(*cases)


@contract(P, M + ':concentric_sample_disk', **O)
def concentric(S):
    m = S.mod(M)
    sx, sy, u1, u2 = square(S)
    p = m.concentric_sample_disk(u1, u2)
    S.ensures('concentric map', shirley(S, sx, sy, p))
    S.ensures('inside the disk', S.le(p[0] * p[0] + p[1] * p[1], 1))


@contract(P, M + ':concentric_sample_disk', **O)
def concentric_density(S):
    m = S.mod(M)
    u1, u2 = u12(S)
    S.requires(S.And(S.ne(u1, u2), S.ne(u1 + u2, 1)))
    if not S.symbolic:
        S.requires(abs(u1 - u2) > .01 and abs(u1 + u2 - 1) > .01)
    plane(S, 'uniform over the disk', m.concentric_sample_disk, u1, u2, 1 / S.pi)


@contract(P, M + ':concentric_sample_disk', n=2)
def concentric_centre(S):
    m = S.mod(M)
    p = m.concentric_sample_disk(S.num(.5), S.num(.5))
    S.ensures('centre', S.And(S.eq(p[0], 0), S.eq(p[1], 0)))


@contract(P, [M + ':cosine_sample_hemisphere', M + ':cosine_hemisphere_pdf'], **O)
def cosine(S):
    """the cosine-weighted hemisphere sample is the disk sample lifted to the sphere"""
    m = S.mod(M)
    sx, sy, u1, u2 = square(S)
    if not S.symbolic:
        S.requires(abs(abs(sx) - abs(sy)) > 1e-4)
    v = m.cosine_sample_hemisphere(u1, u2)
    d = m.concentric_sample_disk(u1, u2)
    S.ensures('projects to the disk sample', S.And(S.eq(v.x, d[0]), S.eq(v.y, d[1])))
    S.ensures('upper hemisphere', S.le(0, v.z))
    S.ensures('unit direction', S.eq(S.dot(v, v), 1))
    ct, ph = S.real('ct', 0, 1), S.real('ph')
    S.ensures('density', S.eq(m.cosine_hemisphere_pdf(ct, ph) * S.pi, ct))


@contract(P, [M + ':cosine_sample_hemisphere', M + ':cosine_hemisphere_pdf'], **O)
def cosine_density(S):
    m = S.mod(M)
    u1, u2 = u12(S)
    S.requires(S.And(S.ne(u1, u2), S.ne(u1 + u2, 1)))
    if S.symbolic:
        # lifting a planar density q to the sphere multiplies it by the cosine; the disk sample has density 1/pi
        x, y = S.fresh('x'), S.fresh('y')
        S.requires(S.lt(x * x + y * y, 1))
        S.stub(M + ':concentric_sample_disk', lambda a, b: [x, y])
        v = m.cosine_sample_hemisphere(u1, u2)
        a, b = [S.diff(v[i], x) for i in range(3)], [S.diff(v[i], y) for i in range(3)]
        c = S.cross(a, b)
        pdf = m.cosine_hemisphere_pdf(v.z, S.num(0))
        S.ensures('density cos/pi', S.eq(S.dot(c, c) * (pdf * S.pi) * (pdf * S.pi), 1))
    else:
        S.requires(abs(u1 - u2) > .01 and abs(u1 + u2 - 1) > .01)
        v = m.cosine_sample_hemisphere(u1, u2)
        S.requires(v.z > .05)
        solid_angle(S, 'density cos/pi', m.cosine_sample_hemisphere, u1, u2, m.cosine_hemisphere_pdf(v.z, 0.))


@contract(P, M + ':uniform_sample_triangle', **O)
def triangle(S):
    m = S.mod(M)
    u1, u2 = u12(S, False)
    r = m.uniform_sample_triangle(u1, u2)
    q = S.sqrt(u1)
    S.ensures('barycentric coordinates', S.And(S.eq(r[0], 1 - q), S.eq(r[1], u2 * q)))
    S.ensures('inside the triangle', S.And(S.le(0, r[0]), S.le(0, r[1]), S.le(r[0] + r[1], 1)))
    S.requires(S.And(S.lt(0, u1), S.lt(u1, 1), S.lt(0, u2), S.lt(u2, 1)))
    if not S.symbolic:
        S.requires(.01 < u1 < .99 and .01 < u2 < .99)
    plane(S, 'uniform over the triangle', m.uniform_sample_triangle, u1, u2, 2)


@contract(P, [M + ':uniform_sample_cone', M + ':uniform_cone_pdf'], **O)
def cone(S):
    """directions within the cone around +z; the two argument orders of the interpolation are both uniform"""
    m = S.mod(M)
    u1, u2 = u12(S)
    cm = S.real('cm', -1, 1)
    S.requires(S.lt(cm, 1))
    if not S.symbolic:
        S.requires(cm < .95)
    v = m.uniform_sample_cone(u1, u2, cm)
    S.ensures('inside the cone', S.And(S.le(cm, v.z), S.le(v.z, 1)))
    S.ensures('unit direction', S.eq(S.dot(v, v), 1))
    S.ensures('azimuth is u2 of a full turn', S.And(S.eq(v.x * S.sin(2 * S.pi * u2), v.y * S.cos(2 * S.pi * u2)),
                                                    S.le(0, v.x * S.cos(2 * S.pi * u2) + v.y * S.sin(2 * S.pi * u2))))
    S.ensures('density', S.eq(m.uniform_cone_pdf(cm) * 2 * S.pi * (1 - cm), 1))
    solid_angle(S, 'uniform over the cone', lambda a, b: m.uniform_sample_cone(a, b, cm), u1, u2, m.uniform_cone_pdf(cm))
    S.ensures('reaches the edge and the axis', S.eq(m.uniform_sample_cone(S.num(0), u2, cm).z + m.uniform_sample_cone(S.num(1), u2, cm).z, 1 + cm))


@contract(P, [M + ':uniform_sample_cone'], **O)
def cone_framed(S):
    """the same, in a given orthonormal frame"""
    m = S.mod(M)
    g = S.mod(G)
    u1, u2 = u12(S)
    cm = S.real('cm', -1, 1)
    S.requires(S.lt(cm, 1))
    x, y, z = S.vec('x'), S.vec('y'), S.vec('z')
    sn = [S.snap(w) for w in (x, y, z)]
    v = m.uniform_sample_cone(u1, u2, cm, x, y, z)
    S.ensures('frame unchanged', S.And(*[S.unchanged(a, b) for a, b in zip((x, y, z), sn)]))
    # coordinates in the frame are those of a direction of the cone around +z
    lo = m.uniform_sample_cone(u1, u2, cm)
    hi = m.uniform_sample_cone(1 - u1, u2, cm)
    st, ct = [S.sqrt(1 - w.z * w.z) for w in (lo, hi)], [lo.z, hi.z]

    def lin(k):
        return S.veq(v, [x[i] * st[k] * S.cos(2 * S.pi * u2) + y[i] * st[k] * S.sin(2 * S.pi * u2) + z[i] * ct[k] for i in range(3)])
    S.ensures('same direction in the given frame', S.Or(lin(0), lin(1)))


def hg_args(S):
    g = S.real('g', -.95, .95) if not S.symbolic else S.real('g')
    S.requires(S.And(S.lt(-1, g), S.lt(g, 1)))
    S.requires(S.Or(S.eq(g, 0) if S.symbolic else g == 0., S.le(S.num('1/100000') if S.symbolic else 1e-2, S.abs(g))),
               'asymmetries within 1e-5 of zero are treated as isotropic')
    return g


@contract(P, M + ':sample_hg', **O)
def hg_sample(S):
    """scattering angle distributed as the Henyey-Greenstein function, in any frame completing the given direction"""
    m = S.mod(M)
    g = hg_args(S)
    u1, u2 = u12(S)
    geo = S.mod(G)
    if S.symbolic:
        # contract of coordinate_system (C01): an orthonormal frame
        w, a, b = S.vec('w'), S.vec('a'), S.vec('b')
        S.stub('pytracer.geometry.utility:coordinate_system', lambda v: (v, a, b))
        v = m.sample_hg(w, g, u1, u2)
        # v is linear in w, a, b: its coordinate along w
        ct = S.diff(v[0], w.x)
        st2 = [S.diff(v[0], a.x), S.diff(v[0], b.x)]
        for i in range(3):
            S.ensures('linear in the frame', S.eq(v[i], w[i] * ct + a[i] * st2[0] + b[i] * st2[1]))
        S.ensures('unit direction', S.eq(ct * ct + st2[0] * st2[0] + st2[1] * st2[1], 1))
        S.ensures('azimuth is u2 of a full turn', S.And(S.eq(st2[0] * S.sin(2 * S.pi * u2), st2[1] * S.cos(2 * S.pi * u2)),
                                                        S.le(0, st2[0] * S.cos(2 * S.pi * u2) + st2[1] * S.sin(2 * S.pi * u2))))
        dct = S.diff(ct, u1)
    else:
        w = S.unit('w')
        v = m.sample_hg(w, g, u1, u2)
        ct = w.dot(v)
        S.ensures('unit direction', S.eq(S.dot(v, v), 1))
        dct = (w.dot(m.sample_hg(w, g, u1 + 1e-6, u2)) - w.dot(m.sample_hg(w, g, u1 - 1e-6, u2))) / 2e-6
    # density of the cosine: dct/du1 * p(ct) * 2 pi = 1 in absolute value, with p as hg_pdf states (next contract)
    k = 1 + g * g - 2 * g * ct
    S.ensures('density', near(S, (dct * (1 - g * g)) * (dct * (1 - g * g)), 4 * k * k * k))


@contract(P, [M + ':hg_pdf', 'pytracer.volume.utility:phase_hg'], **O)
def hg_density(S):
    m = S.mod(M)
    g = S.real('g', -.95, .95) if not S.symbolic else S.real('g')
    S.requires(S.And(S.lt(-1, g), S.lt(g, 1)))
    if S.symbolic:
        w, v = S.vec('w'), S.vec('v')
        ct = S.dot(w, v)
        S.requires(S.And(S.le(-1, ct), S.le(ct, 1)))
    else:
        w, v = S.unit('w'), S.unit('v')
        ct = S.dot(w, v)
    k = 1 + g * g - 2 * g * ct
    S.requires(S.lt(0, k))
    p = m.hg_pdf(w, v, g)
    S.ensures('Henyey-Greenstein density', S.eq(p * 4 * S.pi * k * S.sqrt(k), 1 - g * g))


@contract(P, [M + ':balance_heuristic', M + ':power_heuristic'], **O)
def heuristics(S):
    """multiple importance sampling weights of two techniques are in [0, 1] and sum to 1"""
    m = S.mod(M)
    nf, ng = S.int('nf', 1, 64), S.int('ng', 1, 64)
    f, g = S.real('f', 0, None), S.real('g', 0, None)
    S.requires(S.lt(0, f + g))
    for nm, w in (('balance', m.balance_heuristic), ('power', m.power_heuristic)):
        a, b = w(nf, f, ng, g), w(ng, g, nf, f)
        S.ensures(nm + ' weights sum to one', S.eq(a + b, 1))
        S.ensures(nm + ' weights in [0, 1]', S.And(S.le(0, a), S.le(a, 1)))
        p, q = (nf * f, ng * g) if nm == 'balance' else (nf * f * nf * f, ng * g * ng * g)
        S.ensures(nm + ' weights in proportion', S.eq(a * q, b * p))


class Reject(object):
    """invariant of the rejection loop: x, y are images 1 - 2u of numbers of [0, 1)"""
    S = None

    def enter(self, names, loc, it):
        S = self.S
        ok = S is not None
        if not ok:
            return {}
        for n in 'xy':
            S.ensures('candidate in the square', S.And(S.lt(-1, loc[n]), S.le(loc[n], 1)), 'inv')
        return {n: S.fresh(n, -1, 1) for n in names}

    def iterate(self, it, frame):
        yield 0
        S = self.S
        for n in 'xy':
            S.ensures('candidate in the square', S.And(S.le(-1, frame.f_locals[n]), S.le(frame.f_locals[n], 1)), 'inv')
        S.requires(False, 'loop cut at its invariant')


REJ = Reject()
api.CUTS.setdefault((M, 'rejection_sample_disk'), {})[0] = REJ


@contract(P, M + ':rejection_sample_disk')
def rejection(S):
    m = S.mod(M)
    REJ.S = S if S.symbolic else None
    calls = []

    def rng():
        calls.append(1)
        u = S.fresh('u', 0) if S.symbolic else S.rng.random()
        S.requires(S.lt(u, 1))
        return u
    p = m.rejection_sample_disk(rng)
    S.ensures('inside the disk', S.le(p[0] * p[0] + p[1] * p[1], 1))
    if not S.symbolic:
        S.ensures('two numbers per candidate', len(calls) % 2 == 0 and len(calls) > 0)
