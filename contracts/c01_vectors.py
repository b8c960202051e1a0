"""C01: vectors, frames, rays and differential geometry."""
from pyvc.api import contract

G = 'pytracer.geometry'
U = 'pytracer.geometry.utility'
D = 'pytracer.geometry.diffgeom'
P = 'C01'


def nonzero(S, v, eps='0.01'):
    """the vector is not null (well away from it on concrete runs)"""
    q = S.dot(v, v)
    S.requires(S.lt(0, q))
    if not S.symbolic:
        S.requires(q > 1e-2)
    return q


@contract(P, U + ':coordinate_system', weight=2)
def frame(S):
    """every unit vector is completed to an orthonormal frame"""
    v = S.unit('v')
    s = S.snap(v)
    r = S.get(U + ':coordinate_system')(v)
    S.ensures('three vectors', len(r) == 3)
    a, b, c = r
    S.ensures('first is the argument', S.And(*[S.same(a[i], v[i]) for i in range(3)]))
    S.ensures('second is a unit vector', S.eq(S.dot(b, b), 1))
    S.ensures('second is orthogonal to the first', S.eq(S.dot(a, b), 0))
    S.ensures('third is orthogonal to both', S.And(S.eq(S.dot(c, b), 0), S.eq(S.dot(c, a), 0)))
    S.ensures('third is a unit vector', S.eq(S.dot(c, c), 1))
    S.ensures('third is first x second', S.veq(c, S.cross(a, b)))
    S.ensures('argument unchanged', S.unchanged(v, s))


def norm_post(S, v, r, q):
    S.ensures('unit length', S.eq(S.dot(r, r), 1))
    # parallel and same direction: r |v| = v
    l = S.sqrt(q)
    for i in range(3):
        S.ensures('same direction', S.eq(r[i] * l, v[i]))


@contract(P, U + ':normalize')
def normalize_vec(S):
    g = S.mod(G)
    x = [S.real(c) for c in 'xyz']
    cls = S.choice('class', ['Vector', 'Normal'])
    v = getattr(g, cls)(*x)
    q = nonzero(S, x)
    s = S.snap(v)
    r = S.get(U + ':normalize')(v)
    norm_post(S, x, r, q)
    S.ensures('argument unchanged', S.unchanged(v, s))
    S.ensures('class kept', type(r) is getattr(g, cls))
    S.ensures('result is a new object', r is not v)


@contract(P, U + ':normalize', n=.02)
def normalize_zero(S):
    g = S.mod(G)
    v = getattr(g, S.choice('class', ['Vector', 'Normal']))(0, 0, 0)
    r = S.get(U + ':normalize')(v)
    S.ensures('the null vector stays null', S.And(*[S.eq(r[i], 0) for i in range(3)]))
    w = v.normalize()
    S.ensures('in place: the null vector stays null', S.And(*[S.eq(v[i], 0) for i in range(3)]))
    S.ensures('in place: returns itself', w is v)


@contract(P, [G + ':Vector.normalize', G + ':Normal.normalize'])
def normalize_inplace(S):
    g = S.mod(G)
    x = [S.real(c) for c in 'xyz']
    v = getattr(g, S.choice('class', ['Vector', 'Normal']))(*x)
    q = nonzero(S, x)
    r = v.normalize()
    S.ensures('returns itself', r is v)
    norm_post(S, x, v, q)


@contract(P, U + ':face_forward')
def facing(S):
    n, v = S.normal('n'), S.vec('v')
    sn, sv = S.snap(n), S.snap(v)
    r = S.get(U + ':face_forward')(n, v)
    S.ensures('in the hemisphere of v', S.le(0, S.dot(r, v)))
    d = S.dot(n, v)
    S.ensures('kept when already facing', S.Implies(S.lt(0, d), S.veq(r, n)))
    S.ensures('flipped otherwise', S.Implies(S.lt(d, 0), S.veq(r, [-n[i] for i in range(3)])))
    S.ensures('either n or -n', S.Or(S.veq(r, n), S.veq(r, [-n[i] for i in range(3)])))
    S.ensures('arguments unchanged', S.And(S.unchanged(n, sn), S.unchanged(v, sv)))
    S.ensures('result is a new object', r is not n)
    S.ensures('class', type(r) is S.mod(G).Normal)


@contract(P, U + ':spherical_direction')
def spherical_dir(S):
    st, ct, ph = S.real('st'), S.real('ct'), S.real('phi')
    f = S.get(U + ':spherical_direction')
    v = f(st, ct, ph)
    c, s = S.cos(ph), S.sin(ph)
    S.ensures('components', S.veq(v, [st * c, st * s, ct]))
    x, y, z = S.vec('x'), S.vec('y'), S.vec('z')
    w = f(st, ct, ph, x, y, z)
    S.ensures('components in the given basis', S.veq(w, [x[i] * st * c + y[i] * st * s + z[i] * ct for i in range(3)]))


@contract(P, [U + ':spherical_theta', U + ':spherical_phi', U + ':spherical_direction'], weight=2)
def spherical_roundtrip(S):
    """direction -> (theta, phi) -> the same direction, for every unit vector"""
    v = S.unit('v')
    th, ph = S.get(U + ':spherical_theta')(v), S.get(U + ':spherical_phi')(v)
    S.ensures('theta in [0, pi]', S.And(S.le(0, th), S.le(th, S.pi)))
    S.ensures('phi in [0, 2 pi]', S.And(S.le(0, ph), S.le(ph, 2 * S.pi)))
    S.ensures('cos theta is the height', S.eq(S.cos(th), v.z))
    r = S.sqrt(v.x * v.x + v.y * v.y)
    S.requires(S.lt(0, v.x * v.x + v.y * v.y))
    # sin/cos are 2 pi periodic
    if S.symbolic:
        a = S.atan2(v.y, v.x)
        S.assumption('sin and cos have period 2 pi')
        S.assume(S.And(S.eq(S.cos(a + 2 * S.pi), S.cos(a)), S.eq(S.sin(a + 2 * S.pi), S.sin(a))))
    S.ensures('phi is the azimuth (cos)', S.eq(r * S.cos(ph), v.x))
    S.ensures('phi is the azimuth (sin)', S.eq(r * S.sin(ph), v.y))
    S.ensures('sin theta is the planar radius', S.eq(S.sin(th), r))


@contract(P, [G + ':Vector.cross', G + ':Normal.cross', G + ':Vector.abs_dot', G + ':Normal.abs_dot', G + ':Vector.length',
              G + ':Normal.length', G + ':Vector.sq_length', G + ':Normal.sq_length'])
def products(S):
    g = S.mod(G)
    mk = {'Vector': S.vec, 'Normal': S.normal}
    a = mk[S.choice('ca', ['Vector', 'Normal'])]('a')
    b = mk[S.choice('cb', ['Vector', 'Normal'])]('b')
    sa, sb = S.snap(a), S.snap(b)
    c = a.cross(b)
    S.ensures('cross product', S.veq(c, S.cross(a, b)))
    S.ensures('cross product is a Vector', type(c) is g.Vector)
    S.ensures('orthogonal to both', S.And(S.eq(S.dot(c, a), 0), S.eq(S.dot(c, b), 0)))
    d = S.dot(a, b)
    S.ensures('abs_dot', S.eq(a.abs_dot(b), S.abs(d)))
    S.ensures('sq_length', S.eq(a.sq_length(), S.dot(a, a)))
    l = a.length()
    S.ensures('length', S.And(S.le(0, l), S.eq(l * l, S.dot(a, a))))
    S.ensures('arguments unchanged', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))


@contract(P, [G + ':Point.__sub__', G + ':Point.dist', G + ':Point.sq_dist', G + ':Point.length', G + ':Point.sq_length'])
def points(S):
    g = S.mod(G)
    p, q, v = S.point('p'), S.point('q'), S.vec('v')
    s = S.snap(p), S.snap(q), S.snap(v)
    d = p - q
    S.ensures('difference of points is a Vector', type(d) is g.Vector)
    S.ensures('difference', S.veq(d, S.sub(p, q)))
    r = p - v
    S.ensures('point minus vector is a Point', type(r) is g.Point)
    S.ensures('displacement', S.veq(r, S.sub(p, v)))
    e = p + v
    S.ensures('point plus vector is a Point', type(e) is g.Point)
    S.ensures('displacement forward', S.veq(e, S.add(p, v)))
    t = p.dist(q)
    S.ensures('distance', S.And(S.le(0, t), S.eq(t * t, S.dot(d, d))))
    S.ensures('squared distance', S.eq(p.sq_dist(q), S.dot(d, d)))
    S.ensures('sq_length', S.eq(p.sq_length(), S.dot(p, p)))
    l = p.length()
    S.ensures('length', S.And(S.le(0, l), S.eq(l * l, S.dot(p, p))))
    S.ensures('arguments unchanged', S.And(S.unchanged(p, s[0]), S.unchanged(q, s[1]), S.unchanged(v, s[2])))


@contract(P, [G + ':Vector.__eq__', G + ':Vector.__ne__', G + ':Point.__eq__', G + ':Point.__ne__', G + ':Normal.__eq__',
              G + ':Normal.__ne__', G + ':Vector.from_arr', G + ':Point.from_arr', G + ':Normal.from_arr'])
def vec_equality(S):
    g = S.mod(G)
    cls = getattr(g, S.choice('class', ['Vector', 'Point', 'Normal']))
    a = cls(*[S.real('a' + c) for c in 'xyz'])
    b = cls(*[S.real('b' + c) for c in 'xyz']) if S.bool('distinct') else cls.from_arr(a)
    S.ensures('a new object', b is not a)
    S.ensures('class', type(b) is cls)
    same = S.And(*[S.same(a[i], b[i]) for i in range(3)])
    S.ensures('== compares the components', S.Iff(S.truth(a == b), same))
    S.ensures('!= is the negation', S.Iff(S.truth(a != b), S.Not(same)))
    S.ensures('accessors', S.And(S.same(a.x, a[0]), S.same(a.y, a[1]), S.same(a.z, a[2])))


def ray_of(S, cls, n=''):
    return cls(S.point(n + 'o'), S.vec(n + 'd'), S.real(n + 'mint'), S.inf if S.bool(n + 'unb') else S.real(n + 'maxt'),
               S.int(n + 'depth'), S.real(n + 'time'))


def same_ray(S, a, b):
    return S.And(*([S.same(a.o[i], b.o[i]) for i in range(3)] + [S.same(a.d[i], b.d[i]) for i in range(3)] +
                   [S.same(getattr(a, k), getattr(b, k)) for k in ('mint', 'maxt', 'depth', 'time')]))


@contract(P, [G + ':Ray.__init__', G + ':Ray.__call__', G + ':Ray.from_ray', G + ':Ray.from_parent', G + ':RayDifferential.from_ray',
              G + ':RayDifferential.from_parent'])
def rays(S):
    g = S.mod(G)
    cls = getattr(g, S.choice('class', ['Ray', 'RayDifferential']))
    o, d = S.point('o'), S.vec('d')
    r = cls(o, d, S.real('mint'), S.inf if S.bool('unb') else S.real('maxt'), S.int('depth'), S.real('time'))
    S.ensures('origin and direction are taken over', S.And(S.veq(r.o, o), S.veq(r.d, d)))
    t = S.real('t')
    p = r(t)
    S.ensures('point at parameter t', S.veq(p, [o[i] + t * d[i] for i in range(3)]))
    S.ensures('is a Point', type(p) is g.Point)
    c = cls.from_ray(r)
    S.ensures('copy equals the original', same_ray(S, r, c))
    S.ensures('copy has its class', type(c) is cls)
    s = S.snap(r)
    c.o[0] = c.o[0] + 1
    c.d[1] = c.d[1] + 1
    c.maxt = S.num(0)
    o[2] = o[2] + 1
    d[2] = d[2] + 1
    S.ensures('copies share no storage with the original', S.unchanged(r, s))
    p2, d2 = S.point('q'), S.vec('e')
    k = cls.from_parent(p2, d2, r, S.real('m2'), S.real('x2'))
    S.ensures('child ray: own geometry', S.And(S.veq(k.o, p2), S.veq(k.d, d2)))
    S.ensures('child ray: own range', S.And(S.same(k.mint, S.real('m2')), S.same(k.maxt, S.real('x2'))))
    S.ensures('child ray: one bounce deeper, same time', S.And(S.eq(k.depth, r.depth + 1), S.same(k.time, r.time)))
    S.ensures('child ray: parent unchanged', S.unchanged(r, s))


@contract(P, [G + ':RayDifferential.from_rd', G + ':RayDifferential.scale_differential'])
def ray_differential(S):
    g = S.mod(G)
    r = ray_of(S, g.RayDifferential)
    r.has_differentials = S.bool('hd')
    r.rxOrigin, r.ryOrigin, r.rxDirection, r.ryDirection = S.point('xo'), S.point('yo'), S.vec('xd'), S.vec('yd')
    c = g.RayDifferential.from_rd(r)
    names = ('rxOrigin', 'ryOrigin', 'rxDirection', 'ryDirection')
    S.ensures('copy equals the original', S.And(same_ray(S, r, c), c.has_differentials == r.has_differentials,
                                                *[S.veq(getattr(c, n), getattr(r, n)) for n in names]))
    s = S.snap(r)
    k = S.real('k')
    w = c.scale_differential(k)
    S.ensures('copies share no storage with the original', S.unchanged(r, s))
    S.ensures('returns itself', w is c)
    for n in names:
        base = r.o if 'Origin' in n else r.d
        x, y = getattr(c, n), getattr(r, n)
        S.ensures('offset of %s scaled by the factor' % n, S.veq(x, [base[i] + k * (y[i] - base[i]) for i in range(3)]))
        S.ensures('class of %s' % n, isinstance(x, g.Point if 'Origin' in n else g.Vector))
    S.ensures('main ray untouched by scaling', same_ray(S, r, c))


class _Sh(object):
    def __init__(self, ro, sw):
        self.ro, self.transform_swaps_handedness = ro, sw


def dgeom(S, orth=False):
    dg = S.mod(D)
    p = S.point('p')
    du, dv = S.vec('du'), S.vec('dv')
    n = S.cross(du, dv)
    q = nonzero(S, n)
    sh = _Sh(S.bool('ro'), S.bool('sw'))
    k = dg.DifferentialGeometry(p, du, dv, S.normal('nu'), S.normal('nv'), S.real('u'), S.real('v'), sh)
    return k, p, du, dv, n, q, sh


@contract(P, D + ':DifferentialGeometry.__init__')
def surface_normal(S):
    k, p, du, dv, n, q, sh = dgeom(S)
    S.ensures('data kept', S.And(S.veq(k.p, p), S.veq(k.dpdu, du), S.veq(k.dpdv, dv), S.same(k.u, S.real('u')), S.same(k.v, S.real('v')),
                                 S.veq(k.dndu, S.normal('nu')), S.veq(k.dndv, S.normal('nv'))))
    S.ensures('shape kept', k.shape is sh)
    S.ensures('unit normal', S.eq(S.dot(k.nn, k.nn), 1))
    S.ensures('orthogonal to the tangents', S.And(S.eq(S.dot(k.nn, du), 0), S.eq(S.dot(k.nn, dv), 0)))
    sg = -1 if (sh.ro ^ sh.transform_swaps_handedness) else 1
    l = S.sqrt(q)
    for i in range(3):
        S.ensures('dp/du x dp/dv direction, flipped once per reversed orientation and per handedness swap', S.eq(k.nn[i] * l * sg, n[i]))
    S.ensures('normal is a Normal', type(k.nn) is S.mod(G).Normal)
    S.ensures('no differentials yet', S.And(*[S.eq(getattr(k, a), 0) for a in ('dudx', 'dudy', 'dvdx', 'dvdy')]))
    p[0] = p[0] + 1
    du[0] = du[0] + 1
    S.ensures('no storage shared with the arguments', S.And(S.eq(k.p[0], p[0] - 1), S.eq(k.dpdu[0], du[0] - 1)))


@contract(P, D + ':DifferentialGeometry.compute_differential', weight=3, tol=1e-4, div='assume')
def uv_differentials(S):
    """(du/dx, dv/dx) and (du/dy, dv/dy) reproduce the offset of the hit point in the tangent plane"""
    g = S.mod(G)
    dg = S.mod(D)
    p = S.point('p')
    # a unit normal and its scaled tangent vectors (du x dv = l nn)
    du = S.vec('du')
    dv = S.vec('dv')
    cr = S.cross(du, dv)
    if S.symbolic:
        m = S.real('m')
        S.requires(S.lt(0, m))
        S.requires(S.eq(m * m * S.dot(cr, cr), 1))
        n = S.vec('n')
        for i in range(3):
            S.requires(S.eq(n[i], cr[i] * m))
        S.requires(S.eq(S.dot(n, n), 1))
    else:
        q = S.sqrt(S.dot(cr, cr))
        S.requires(q > .3)
        n = g.Vector(*[c / q for c in cr])
    k = dg.DifferentialGeometry.__new__(dg.DifferentialGeometry)
    k.p, k.dpdu, k.dpdv, k.nn, k.shape = p, du, dv, g.Normal(n[0], n[1], n[2]), None
    k.u, k.v = S.real('u'), S.real('v')
    r = g.RayDifferential(S.point('o'), S.vec('d'))
    r.has_differentials = True
    r.rxOrigin, r.ryOrigin, r.rxDirection, r.ryDirection = S.point('xo'), S.point('yo'), S.vec('xd'), S.vec('yd')
    for w in (r.rxDirection, r.ryDirection):
        c = S.dot(n, w)
        S.requires(S.Or(S.lt(c, 0), S.lt(0, c)))
        if not S.symbolic:
            S.requires(abs(c) > .1)
    sr = S.snap(r)
    k.compute_differential(r)
    S.ensures('ray unchanged', S.unchanged(r, sr))
    for nm, o, w in (('x', r.rxOrigin, r.rxDirection), ('y', r.ryOrigin, r.ryDirection)):
        dp = getattr(k, 'dpd' + nm)
        S.ensures('offset hit lies in the tangent plane', S.eq(S.dot(n, dp), 0))
        # p + dp lies on the offset ray: (p + dp - o) x w = 0
        e = [p[i] + dp[i] - o[i] for i in range(3)]
        S.ensures('offset hit lies on the offset ray', S.And(*[S.eq(c, 0) for c in S.cross(e, w)]))
        a, b = getattr(k, 'dud' + nm), getattr(k, 'dvd' + nm)
        e = [a * du[i] + b * dv[i] - dp[i] for i in range(3)]
        for i in sorted(range(3), key=lambda i: not S.poly_eq(e[i], 0)):
            if not S.poly_eq(e[i], 0):
                # the offset is tangent, so the last coordinate follows from the other two (n_i is not 0)
                j, l = (i + 1) % 3, (i + 2) % 3
                S.ensures('offset is tangent', S.eq(n[i] * e[i], 0), kind='lemma', by=[
                    (a, S.dot(n, du), 0), (b, S.dot(n, dv), 0), (-1, S.dot(n, dp), 0), (-n[j], e[j], 0), (-n[l], e[l], 0)])
                S.ensures('normal component', S.ne(n[i], 0), kind='lemma')
            S.ensures('dpdu du + dpdv dv = dp', S.eq(e[i] + dp[i], dp[i]))


@contract(P, D + ':DifferentialGeometry.compute_differential')
def uv_no_differentials(S):
    g = S.mod(G)
    k, p, du, dv, n, q, sh = dgeom(S)
    r = g.RayDifferential(S.point('o'), S.vec('d'))
    k.dudx = k.dvdx = k.dudy = k.dvdy = S.num(3)
    k.compute_differential(r)
    S.ensures('without offset rays all differentials are zero',
              S.And(*([S.eq(getattr(k, a), 0) for a in ('dudx', 'dudy', 'dvdx', 'dvdy')] +
                      [S.eq(getattr(k, a)[i], 0) for a in ('dpdx', 'dpdy') for i in range(3)])))
