"""C07: spheres, cylinders and disks."""
from pyvc.api import contract

H = 'pytracer.shape'
G = 'pytracer.geometry'
P = 'C07'
SP, CY, DI = H + '.sphere:Sphere', H + '.cylinder:Cylinder', H + '.disk:Disk'


def placed(S, simple=False):
    """object-to-world: an arbitrary axis scaling followed by a translation (general affine actions are C05)"""
    T = S.mod('pytracer.transform').Transform
    if simple:
        t = T()
        return t, t.inverse(), [1, 1, 1], [0, 0, 0]
    k = [S.real('k%d' % i, .25, 4) for i in range(3)]
    tr = S.vec('t')
    t = T.translate(tr) * T.scale(*k)
    return t, t.inverse(), k, tr


def world(S, k, tr, q):
    return [q[i] * k[i] + tr[i] for i in range(3)]


def quadric(S, cls, full, simple=False, order=True):
    """a sphere / cylinder / disk of arbitrary size and clipping"""
    sh = S.mod(H)
    o2w, w2o, k, tr = placed(S, simple)
    R = S.real('R', .25, 4) if not S.symbolic else S.real('R')
    S.requires(S.lt(0, R))
    pm = S.num(360) if full else S.real('pm', 5, 355)
    ro = S.bool('ro') if order else False
    if cls == 'Sphere':
        if full:
            z0, z1 = -R, R
        elif S.symbolic:
            z0, z1 = S.real('z0'), S.real('z1')
            S.requires(S.And(S.lt(-R, z0), S.lt(z0, z1), S.lt(z1, R)))
        else:
            a, b = sorted([S.real('za', -.9, .9), S.real('zb', -.9, .9)])
            S.requires(b - a > .1)
            z0, z1 = a * R, b * R
            if S.model:
                z0, z1 = S.real('z0'), S.real('z1')
                S.requires(-R < z0 < z1 < R)
        s = sh.Sphere(o2w, w2o, ro, R, *((z0, z1) if not order or S.bool('zorder') else (z1, z0)), pm)
    elif cls == 'Cylinder':
        z0, z1 = S.real('z0'), S.real('z1')
        S.requires(S.lt(z0, z1))
        s = sh.Cylinder(o2w, w2o, ro, R, *((z0, z1) if not order or S.bool('zorder') else (z1, z0)), pm)
    else:
        z0 = z1 = S.real('z0')
        ri = S.num(0) if full else S.real('ri')
        S.requires(S.And(True if full else S.le(0, ri), S.lt(ri, R)))
        s = sh.Disk(o2w, w2o, ro, z0, R, ri, pm)
        s_ri = ri
    if order:
        s.transform_swaps_handedness = S.bool('sw')
    return s, R, z0, z1, pm, k, tr


def angle(S, x, y):
    """azimuth in [0, 2 pi)"""
    a = S.atan2(y, x)
    return S.If(S.lt(a, 0), a + 2 * S.pi, a)


def chord(S, cls, R, k, tr):
    """an arbitrary ray meeting the (unclipped) surface in two points p0, p1 at parameters t0 < t1 = t0 + h;
    -> world ray, p0, p1 (object space), t0, t1.  The chord is w -+ (h/2) d with w perpendicular to d."""
    g = S.mod(G)
    if S.symbolic:
        d, t0, h = [S.real('d' + c) for c in 'xyz'], S.real('t0'), S.real('h')
        if cls == 'Sphere':
            q = [S.real('q' + c) for c in 'xyz']
            w = S.cross(d, q)
            A = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
            S.rewrite(R * R, S.dot(w, w) + h * h * A / 4)
        else:
            q, oz = S.real('q'), S.real('oz')
            w = [-q * d[1], q * d[0], oz]
            A = d[0] * d[0] + d[1] * d[1]
            S.rewrite(R * R, q * q * A + h * h * A / 4)
        S.requires(S.And(S.lt(0, h), S.lt(0, A)))
        S.sqrt_hint(A, h)
        p0 = [w[i] - h / 2 * d[i] for i in range(3)]
        p1 = [w[i] + h / 2 * d[i] for i in range(3)]
        t1 = t0 + h
        # the two points by name: evaluating the ray at t0 / t1 yields them (Ray.__call__ is under contract in C01)
        P0, P1 = S.point('a'), S.point('b')
        ev = g.Ray.__call__

        def at(self, t):
            for x, y in ((t0, P0), (t1, P1)):
                if S.identical(t, x):
                    return y.copy()
            return ev(self, t)
        S.stub(G + ':Ray.__call__', at)
        p0d, p0, p1 = p0, P0, P1
        S.requires(S.And(S.Or(S.ne(p0[0], 0), S.ne(p0[1], 0)), S.Or(S.ne(p1[0], 0), S.ne(p1[1], 0))), 'hit points off the axis')
    else:
        n = 3 if cls == 'Sphere' else 2
        p = []
        for c in 'ab':
            v = [S.rng.gauss(0, 1) for _ in range(n)]
            l = sum(x * x for x in v) ** .5
            v = [S.real(c + 'xyz'[j], x / l, x / l) for j, x in enumerate(v)]
            l = sum(x * x for x in v) ** .5
            S.requires(l > 0)
            p.append([x / l * R for x in v] + ([S.real(c + 'z', -9, 9)] if n == 2 else []))
        p0, p1 = p
        t0, h = S.real('t0', -3, 3), S.real('h', .2, 4)
        d = [(p1[i] - p0[i]) / h for i in range(3)]
        S.requires(sum((p1[i] - p0[i]) ** 2 for i in range(n)) > .05 * R * R)
        S.requires(all(abs(x[0]) + abs(x[1]) > 1e-2 * R for x in p))
        t1 = t0 + h
    o = [(p0d if S.symbolic else p0)[i] - t0 * d[i] for i in range(3)]
    mint = S.real('mint') if S.symbolic or S.model else S.real('mint', -3, 3)
    maxt = S.inf if S.bool('unb') else (S.real('maxt') if S.symbolic or S.model else S.real('maxt', 0, 7))
    r = g.Ray(g.Point(*world(S, k, tr, o)), g.Vector(*[d[i] * k[i] for i in range(3)]), mint, maxt)
    return r, p0, p1, t0, t1


def accepts(S, cls, p, z0, z1, pm, full):
    """is the surface point kept by the clipping parameters"""
    if full and cls == 'Sphere':
        return True
    a = True if full else S.le(angle(S, p[0], p[1]), S.pi * pm / 180)
    return S.And(S.le(z0, p[2]), S.le(p[2], z1), a)


def first_hit(S, cls, full):
    s, R, z0, z1, pm, k, tr = quadric(S, cls, full, simple=True, order=False)
    r, p0, p1, t0, t1 = chord(S, cls, R, k, tr)
    if S.symbolic:
        g = S.mod(G)
        # the record is the subject of the *_record contracts
        S.stub(H + '.%s:geo' % cls.lower(), Geo(g))
    c0 = S.And(S.le(r.mint, t0), S.le(t0, r.maxt), accepts(S, cls, p0, z0, z1, pm, full))
    c1 = S.And(S.le(r.mint, t1), S.le(t1, r.maxt), accepts(S, cls, p1, z0, z1, pm, full))
    sr = S.snap(r)
    if S.bool('predicate'):
        S.ensures('predicate: hit exactly when a kept surface point lies in the range', S.Iff(S.truth(s.intersect_p(r)), S.Or(c0, c1)))
    else:
        res = s.intersect(r)
        S.ensures('hit exactly when a kept surface point lies in the range', S.Iff(S.truth(res[0]), S.Or(c0, c1)))
        if res[0]:
            S.ensures('nearest kept surface point is reported', S.And(S.Implies(c0, S.eq(res[1], t0)), S.Implies(S.Not(c0), S.eq(res[1], t1))))
            S.ensures('error bound positive for positive parameters', S.Implies(S.lt(0, res[1]), S.lt(0, res[2])))
    S.ensures('ray unchanged', S.unchanged(r, sr))


class Geo(object):
    """the geometry module with the derivative record left out"""

    def __init__(self, g):
        self._g = g

    def __getattr__(self, n):
        if n == 'DifferentialGeometry':
            return lambda *a: None
        if n == 'normalize':
            return lambda v: v
        return getattr(self._g, n)


@contract(P, [SP + '.intersect', SP + '.intersect_p'], cancel=True, weight=3, tol=1e-6, feas_ms=0, div='assume', sqrt='assume')
def sphere_first_hit(S):
    first_hit(S, 'Sphere', True)


@contract(P, [SP + '.intersect', SP + '.intersect_p'], cancel=True, weight=3, tol=1e-6, feas_ms=0, div='assume', sqrt='assume', shards=3, time=1.5)
def sphere_clipped_hit(S):
    first_hit(S, 'Sphere', False)


@contract(P, [CY + '.intersect', CY + '.intersect_p'], cancel=True, weight=3, tol=1e-6, feas_ms=0, div='assume', sqrt='assume')
def cylinder_first_hit(S):
    first_hit(S, 'Cylinder', True)


@contract(P, [CY + '.intersect', CY + '.intersect_p'], cancel=True, weight=3, tol=1e-6, feas_ms=0, div='assume', sqrt='assume', shards=2)
def cylinder_clipped_hit(S):
    first_hit(S, 'Cylinder', False)


# ------------------------------------------------------------------ misses
def line_misses(S, cls):
    """a ray whose line stays outside the surface: nearest point w of the line to the centre (axis), |w| > R"""
    s, R, z0, z1, pm, k, tr = quadric(S, cls, True, simple=True, order=False)
    g = S.mod(G)
    d, t = S.vec('d'), S.real('tm')
    if cls == 'Sphere':
        q = [S.real('q' + c) for c in 'xyz']
        w = S.cross(d, q)
        w2 = S.dot(w, w)
        A = S.dot(d, d)
    else:
        q = S.real('q')
        w = [-q * d[1], q * d[0], S.real('oz')]
        A = d[0] * d[0] + d[1] * d[1]
        w2 = q * q * A
    S.requires(S.And(S.lt(0, A), S.lt(R * R, w2)))
    if not S.symbolic:
        S.requires(A > .05 and w2 > 1.05 * R * R)
    o = [w[i] - t * d[i] for i in range(3)]
    r = g.Ray(g.Point(*o), d, S.real('mint'), S.inf)
    # discriminant of |o + t d|^2 = R^2
    if S.symbolic:
        e = S.real('e')
        S.rewrite(R * R, w2 - e)
        S.requires(S.And(S.lt(0, e), S.lt(0, A * e)))
    S.ensures('no hit', S.Not(S.truth(s.intersect(r)[0])))
    S.ensures('no hit by the predicate', S.Not(S.truth(s.intersect_p(r))))


@contract(P, [SP + '.intersect', SP + '.intersect_p'], cancel=True, div='assume')
def sphere_miss(S):
    line_misses(S, 'Sphere')


@contract(P, [CY + '.intersect', CY + '.intersect_p'], cancel=True, div='assume')
def cylinder_miss(S):
    line_misses(S, 'Cylinder')


@contract(P, [CY + '.intersect', CY + '.intersect_p'], cancel=True, div='assume')
def cylinder_axis_rays_miss(S):
    """rays parallel to the axis never hit the side surface"""
    s, R, z0, z1, pm, k, tr = quadric(S, 'Cylinder', True, simple=True, order=False)
    g = S.mod(G)
    r = g.Ray(S.point('o'), g.Vector(0, 0, S.real('d')), S.real('mint'), S.inf)
    S.ensures('no hit', S.Not(S.truth(s.intersect(r)[0])))
    S.ensures('no hit by the predicate', S.Not(S.truth(s.intersect_p(r))))


# ------------------------------------------------------------------ disks
def disk_ray(S, s, z, R, k, tr, aim=False):
    """an arbitrary ray crossing the plane of the disk at the point c and parameter x"""
    g = S.mod(G)
    if S.symbolic or S.model:
        c = [S.real('cx'), S.real('cy'), z]
    else:
        f = R if aim else 1.4 * R
        c = [S.real('cx', -f, f), S.real('cy', -f, f), z]
    d = S.vec('d')
    x = S.real('x') if S.symbolic or S.model else S.real('x', .1 if aim else -2, 3)
    S.requires(S.Or(S.lt(S.num('.0001'), d[2]), S.lt(d[2], S.num('-.0001'))), 'rays not (nearly) parallel to the plane of the disk')
    if not S.symbolic:
        S.requires(abs(d[2]) > .05)
    o = [c[i] - x * d[i] for i in range(3)]
    mint = S.real('mint') if S.symbolic or S.model else S.real('mint', -3, 0 if aim else 3)
    maxt = S.inf if aim or S.bool('unb') else (S.real('maxt') if S.symbolic or S.model else S.real('maxt', 0, 4))
    r = g.Ray(g.Point(*world(S, k, tr, o)), g.Vector(*[d[i] * k[i] for i in range(3)]), mint, maxt)
    return r, c, x


@contract(P, [DI + '.intersect', DI + '.intersect_p'], cancel=True, weight=2, tol=1e-6, div='assume', sqrt='assume')
def disk_hit(S):
    """hit exactly when the ray crosses the plane inside the (partial) annulus and its range"""
    full = S.bool('full')
    s, R, z, _, pm, k, tr = quadric(S, 'Disk', full, simple=True, order=False)
    r, c, x = disk_ray(S, s, z, R, k, tr)
    ri = s.inner_radius
    if S.symbolic:
        S.stub(H + '.disk:geo', Geo(S.mod(G)))
    d2 = c[0] * c[0] + c[1] * c[1]
    cond = S.And(S.le(r.mint, x), S.le(x, r.maxt), S.le(d2, R * R), S.le(ri * ri, d2),
                 True if full else S.le(angle(S, c[0], c[1]), S.pi * pm / 180))
    sr = S.snap(r)
    if S.bool('predicate'):
        S.ensures('predicate: hit exactly when the crossing lies in the disk and in the range', S.Iff(S.truth(s.intersect_p(r)), cond))
    else:
        res = s.intersect(r)
        S.ensures('hit exactly when the crossing lies in the disk and in the range', S.Iff(S.truth(res[0]), cond))
        if res[0]:
            S.ensures('parameter of the crossing', S.eq(res[1], x))
            S.ensures('error bound positive for positive parameters', S.Implies(S.lt(0, x), S.lt(0, res[2])))
    S.ensures('ray unchanged', S.unchanged(r, sr))


@contract(P, [DI + '.intersect', DI + '.intersect_p'])
def disk_parallel_rays_miss(S):
    s, R, z, _, pm, k, tr = quadric(S, 'Disk', S.bool('full'), simple=True, order=False)
    g = S.mod(G)
    r = g.Ray(S.point('o'), g.Vector(S.real('dx'), S.real('dy'), 0), S.real('mint'), S.inf)
    S.ensures('no hit', S.Not(S.truth(s.intersect(r)[0])))
    S.ensures('no hit by the predicate', S.Not(S.truth(s.intersect_p(r))))


# ------------------------------------------------------------------ measures and bounds
@contract(P, [SP + '.area', CY + '.area', DI + '.area', SP + '.object_bound', CY + '.object_bound', DI + '.object_bound'], weight=2)
def area_and_bound(S):
    cls = S.choice('cls', ['Sphere', 'Cylinder', 'Disk'])
    full = S.bool('full')
    s, R, z0, z1, pm, k, tr = quadric(S, cls, full, simple=True)
    a = s.area()
    f = S.pi * pm / 180
    if cls == 'Disk':
        S.ensures('area of the (partial) annulus', S.eq(2 * a, f * (R * R - s.inner_radius * s.inner_radius)))
    else:
        S.ensures('area of the (partial) band', S.eq(a, f * R * (z1 - z0)))
    b = s.object_bound()
    # an arbitrary point of the surface
    if cls == 'Sphere':
        x, y, z = S.unit3('q')
        p = [x * R, y * R, z * R]
        S.requires(S.And(S.le(z0, p[2]), S.le(p[2], z1)))
    else:
        x, y = S.real('qx', -1, 1), S.real('qy', -1, 1)
        S.requires(S.le(x * x + y * y, 1))
        p = [x * R, y * R, S.real('z')]
        if not S.symbolic:
            p[2] = min(max(p[2], min(z0, z1)), max(z0, z1))
        S.requires(S.And(S.le(z0, p[2]), S.le(p[2], z1)))
    for i in range(3):
        if i < 2 and S.symbolic:
            S.lemma('component of a unit vector', S.And(S.le(-1, (x, y)[i]), S.le((x, y)[i], 1)))
            S.lemma('scaled', S.And(S.le(0, R * (1 + (x, y)[i])), S.le(0, R * (1 - (x, y)[i]))))
        S.ensures('bound encloses the surface', S.And(S.le(b.pMin[i], p[i]), S.le(p[i], b.pMax[i])))
    for i in range(2):
        S.ensures('bound touches the extent of the full surface', S.And(S.eq(b.pMin[i], -R), S.eq(b.pMax[i], R)))
    S.ensures('bound is exact in height', S.And(S.eq(b.pMin[2], z0), S.eq(b.pMax[2], z1)))


# ------------------------------------------------------------------ sampling
@contract(P, [SP + '.sample', CY + '.sample', DI + '.sample'], weight=2, cancel=True)
def sampled_point(S):
    """samples lie on the surface, inside the clipping, with its normal; the map preserves area"""
    cls = S.choice('cls', ['Sphere', 'Cylinder', 'Disk'])
    full = S.bool('full')
    s, R, z0, z1, pm, k, tr = quadric(S, cls, full)
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)
    if not S.symbolic:
        S.requires(R >= .25)
    if S.symbolic:
        S.stub(G + ':normalize', lambda v: v)
    p, n = s.sample(u1, u2)
    q = [S.div(p[i] - tr[i], k[i]) for i in range(3)]
    phi = u2 * S.pi * pm / 180
    if cls == 'Disk':
        z = z0
        r2 = s.inner_radius * s.inner_radius + u1 * (R * R - s.inner_radius * s.inner_radius)
        on = [0, 0, 1]
    else:
        z = z0 + u1 * (z1 - z0)
        r2 = R * R - z * z if cls == 'Sphere' else R * R
        on = [q[0], q[1], q[2] if cls == 'Sphere' else 0]
    S.ensures('height (area) is proportional to the first sample', S.eq(q[2], z))
    c, sn = S.cos(phi), S.sin(phi)
    S.ensures('azimuth is proportional to the second sample', S.eq(q[0] * sn, q[1] * c))
    S.ensures('azimuth on the right side', S.le(0, q[0] * c + q[1] * sn))
    S.ensures('on the surface', S.eq(q[0] * q[0] + q[1] * q[1], r2))
    # world normal: inverse transpose, orientation by reverse orientation
    sg = -1 if s.ro else 1
    m = [S.div(on[i], k[i]) for i in range(3)]
    if S.symbolic:
        S.ensures('normal of the surface', S.And(*[S.eq(n[i], sg * m[i]) for i in range(3)]))
    else:
        S.requires(S.dot(m, m) > 1e-6)
        S.ensures('unit normal', S.eq(S.dot(n, n), 1))
        c = S.cross(n, m)
        S.ensures('normal of the surface', S.And(S.eq(S.dot(c, c), 0), S.lt(0, sg * S.dot(n, m))))
