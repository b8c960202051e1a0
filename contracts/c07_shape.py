"""C07: bounds in the world, densities of sampled points and directions."""
from pyvc.api import contract
from contracts.c07_quadrics import H, G, P, SP, quadric

SH = H + ':Shape'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)


def plain(S, cls='Sphere'):
    return quadric(S, cls, True, simple=True)[0]


@contract(P, SH + '.world_bound', tol=1e-6, weight=2)
def world_bound(S):
    """the world bound is that of the eight placed corners of the object bound"""
    g = S.mod(G)
    s = plain(S)
    a, b = S.point('a'), S.point('b')
    S.requires(S.And(*[S.le(a[i], b[i]) for i in range(3)]))
    corners = [(x, y, z) for x in (a.x, b.x) for y in (a.y, b.y) for z in (a.z, b.z)]
    at = [S.point('w%d' % i) for i in range(8)]
    same = lambda x, y: S.identical(x, y) if S.symbolic else x == y
    box = g.BBox(a, b)
    box.pMin, box.pMax = a, b
    s.object_bound = lambda: box

    def o2w(p):
        for c, w in zip(corners, at):
            if all(same(x, y) for x, y in zip(p, c)):
                return w.copy()
        S.ensures('corners of the object bound are placed', False)
        return p
    s.o2w = o2w
    w = s.world_bound()
    for i in range(3):
        S.ensures('encloses the placed corners', S.And(*[S.And(S.le(w.pMin[i], q[i]), S.le(q[i], w.pMax[i])) for q in at]))
        S.ensures('touches the placed corners', S.And(S.Or(*[S.eq(w.pMin[i], q[i]) for q in at]), S.Or(*[S.eq(w.pMax[i], q[i]) for q in at])))


@contract(P, [SH + '.pdf', SH + '.pdf_p', SH + '.sample_p'], **O)
def density(S):
    """density over area, and over the directions from a point"""
    sh, g = S.mod(H), S.mod(G)
    s = plain(S, S.choice('cls', ['Cylinder', 'Disk']))
    A = S.real('A', .1, 9)
    S.requires(S.lt(0, A))
    s.area = lambda: A
    p, w = S.point('p'), S.vec('w')
    S.ensures('density over the area', S.eq(s.pdf(p) * A, 1))
    hit, t = S.bool('hit'), S.real('t', .1, 5)
    nn = S.unit3('n')
    rec = []

    class dg(object):
        pass
    dg.nn = g.Normal(*nn)

    def intersect(r):
        rec.append(r)
        return (True, t, 0, dg) if hit else (False, None, None, None)
    s.intersect = intersect
    c = sum(w[i] * nn[i] for i in range(3))
    S.requires(S.And(S.lt(0, t), S.ne(c, 0)))
    sp, sw = S.snap(p), S.snap(w)
    d = s.pdf_p(p, w)
    S.ensures('one ray', len(rec) == 1)
    r = rec[0]
    S.ensures('ray from the point along the direction', S.And(*[S.And(S.eq(r.o[i], p[i]), S.eq(r.d[i], w[i])) for i in range(3)]))
    S.ensures('past the point, without end', S.And(S.lt(0, r.mint), S.le(r.mint, S.num('0.001')), S.eq(r.maxt, S.inf)))
    if hit:
        S.ensures('squared distance over projected area', S.eq(d * A * S.abs(c), t * t * sum(x * x for x in w)))
    else:
        S.ensures('nothing where the shape is not hit', S.eq(d, 0))
    S.ensures('arguments unchanged', S.And(S.unchanged(p, sp), S.unchanged(w, sw)))
    # points seen from a point: all of the surface unless the shape knows better
    got = ['q', 'n']
    a = []
    s.sample = lambda *u: a.append(u) or got
    S.ensures('points are chosen on the whole surface', s.sample_p(p, .25, .75) is got and a == [(.25, .75)])


def seen(S):
    """a sphere about c, and a point"""
    g = S.mod(G)
    s, R, z0, z1, pm, k, tr = quadric(S, 'Sphere', True, simple=True, order=False)
    s.ro = S.bool('ro')
    c, p = S.point('c'), S.point('p')
    asked = []

    def o2w(x):
        S.ensures('the centre is placed', S.And(type(x) is g.Point, *[S.eq(x[i], 0) for i in range(3)]))
        return c.copy()
    D2 = sum((c[i] - p[i]) * (c[i] - p[i]) for i in range(3))
    inside = S.bool('inside')
    ax = L = None
    if S.symbolic:
        ax, L = S.unit3('ax'), S.real('L')
        S.requires(S.lt(0, L))
        c = g.Point(*[p[i] + L * ax[i] for i in range(3)])
        D2 = L * L
        S.sqrt_hint(L)
        S.stub(G + ':coordinate_system', lambda v: (v, 'x', 'y'))  # C01
        s.o2w = o2w
        S.requires(S.lt(D2 - R * R, S.num('0.00001')) if inside else S.le(S.num('0.00001'), D2 - R * R))
    else:
        f = S.real('f', .05, .95) if inside else S.real('f', 1.05, 6)
        u = S.unit3('u')
        p = g.Point(*[c[i] + R * f * u[i] for i in range(3)])
        T = S.mod('pytracer.transform').Transform.translate(g.Vector(c.x, c.y, c.z))
        ro = s.ro
        s = S.mod(H).Sphere(T, T.inverse(), ro, R, -R, R, S.num(360))
        D2 = (R * f) ** 2
    return s, R, c, p, D2, inside, ax, L


@contract(P, SP + '.pdf_p', nf=True, **O)
def sphere_density(S):
    """directions to a sphere are uniform in the cone it fills; inside, points are uniform over the surface"""
    s, R, c, p, D2, inside, _, _ = seen(S)
    w = S.vec('w')
    if inside:
        if S.symbolic:
            v, a = S.real('v'), []
            S.stub(SH + '.pdf_p', lambda self, *x: a.append(x) or v)
            d = s.pdf_p(p, w)
            S.ensures('density of the shape in general', S.And(S.eq(d, v), len(a) == 1 and a[0][0] is p and a[0][1] is w))
        else:
            d = s.pdf_p(p, w)
            S.ensures('density of the shape in general', S.eq(d, S.mod(H).Shape.pdf_p(s, p, w)))
    else:
        d = s.pdf_p(p, w)
        ct = S.sqrt(S.div(D2 - R * R, D2))
        S.ensures('density of the cone', S.eq(d * 2 * S.pi * (1 - ct), 1))


@contract(P, SP + '.sample_p', nf=True, **O)
def sphere_seen(S):
    """points on the side of a sphere seen from outside, with their normals"""
    g = S.mod(G)
    s, R, c, p, D2, inside, ax, L = seen(S)
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)
    sp = S.snap(p)
    if inside:
        got, a = ['q', 'n'], []
        s.sample = lambda *u: a.append(u) or got
        S.ensures('chosen on the whole surface', s.sample_p(p, u1, u2) is got and len(a) == 1 and a[0][0] is u1 and a[0][1] is u2)
        return
    t = S.real('t', .1, 5)
    hit = S.bool('hit')
    rec, cone = [], []
    if S.symbolic:
        d = S.unit3('d')
        S.requires(S.lt(0, t))
        S.stub('pytracer.montecarlo:uniform_sample_cone', lambda *x: cone.append(x) or g.Vector(*d))

        def intersect(r):
            rec.append(r)
            return [True, t, 0, None] if hit else [False, None, None, None]
        s.intersect = intersect
        e = t if hit else L * S.dot(ax, d)
        M = [p[i] + e * d[i] - c[i] for i in range(3)]
        S.requires(S.lt(0, S.sqrt(S.dot(M, M))))
    q, n = s.sample_p(p, u1, u2)
    to = [c[i] - p[i] for i in range(3)]
    if S.symbolic:
        S.ensures('one ray in the cone', len(rec) == 1 and len(cone) == 1)
        x1, x2, ct, x, y, z = cone[0]
        S.ensures('samples passed on', S.And(S.eq(x1, u1), S.eq(x2, u2)))
        S.ensures('cone that the sphere fills', S.And(S.le(0, ct), S.eq(ct * ct * D2, D2 - R * R)))
        S.ensures('axis to the centre, in a frame', S.And((x, y) == ('x', 'y'), *[S.eq(z[i] * L, to[i]) for i in range(3)]))
        r = rec[0]
        S.ensures('ray from the point in the cone', S.And(*[S.And(S.eq(r.o[i], p[i]), S.eq(r.d[i], d[i])) for i in range(3)]))
        S.ensures('past the point, without end', S.And(S.lt(0, r.mint), S.le(r.mint, S.num('0.001')), S.eq(r.maxt, S.inf)))
        e = t if hit else sum(to[i] * d[i] for i in range(3))
        S.ensures('point where the ray meets the sphere, or comes closest', S.And(*[S.eq(q[i], p[i] + e * d[i]) for i in range(3)]))
    else:
        out = [q[i] - c[i] for i in range(3)]
        S.ensures('on the sphere', S.eq(S.dot(out, out), R * R))
        S.ensures('on the side of the point', S.le(S.dot(out, to), -R * R * S.num('0.999') + 1e-3))
        v = [q[i] - p[i] for i in range(3)]
        S.ensures('inside the cone the sphere fills', S.le((D2 - R * R) * S.dot(v, v), S.dot(v, to) ** 2 * 1.001))
    m = [(q[i] - c[i]) * (-1 if s.ro else 1) for i in range(3)]
    S.ensures('unit normal', S.And(isinstance(n, g.Normal), S.eq(S.dot(n, n), 1)))
    S.ensures('normal along the radius', S.And(*[S.eq(x, 0) for x in S.cross(n, m)]))
    S.ensures('normal away from the centre, or to it if reversed', S.eq(S.dot(n, m) * S.sqrt(S.dot(m, m)), S.dot(m, m)))
    S.ensures('point unchanged', S.unchanged(p, sp))
