"""C06: triangles."""
from pyvc.api import contract
from contracts.c05_transform import affine

H = 'pytracer.shape'
TR = 'pytracer.shape.triangle'
G = 'pytracer.geometry'
P = 'C06'


class Seq(object):
    """an array of any length: reading an index term yields the element named by that term"""

    def __init__(self, S, mk):
        self.S, self.mk, self.d = S, mk, []

    def __getitem__(self, k):
        for j, v in self.d:
            if self.S.identical(j, k):
                return v
        for j, v in self.d:
            if self.S.proves(self.S.eq(j, k)):
                return v
        v = self.mk(k, len(self.d))
        self.d.append((k, v))
        return v

    def put(self, k, v):
        self.d.append((k, v))

    def set(self, k, v):
        self.d = [(j, w) for j, w in self.d if not self.S.identical(j, k)] + [(k, v)]


class Mesh(object):
    pass


def tri(S, uv=True, shading=False, inverse=None):
    """triangle number n of an arbitrary mesh; -> (triangle, its three vertices, uvs, mesh)"""
    g = S.mod(G)
    sh = S.mod(H)
    o2w = affine(S, 'o', inverse) if inverse is not None else S.mod('pytracer.transform').Transform()
    m = Mesh()
    m.o2w, m.w2o = o2w, o2w.inverse()
    m.alphaTexture = None
    ro = S.bool('ro')
    p = [S.point('p%d' % i) for i in range(3)]
    uvs = [[S.real('u%d' % i), S.real('v%d' % i)] for i in range(3)] if uv else None
    ns = [S.normal('n%d' % i) for i in range(3)] if shading else None
    ss = [S.vec('s%d' % i) for i in range(3)] if shading else None
    if S.symbolic:
        n = S.int('n')
        S.requires(S.le(0, n))
        idx = [S.int('i%d' % k) for k in range(3)]
        for k in range(3):
            S.requires(S.le(0, idx[k]))
        m.vertexIndex = Seq(S, lambda k, j: S.fresh_int('idx'))
        m.p = Seq(S, lambda k, j: g.Point(*[S.fresh('p') for _ in 'xyz']))
        m.uvs = Seq(S, lambda k, j: S.fresh('uv')) if uv else None
        m.n = Seq(S, lambda k, j: g.Normal(*[S.fresh('n') for _ in 'xyz'])) if shading else None
        m.s = Seq(S, lambda k, j: g.Vector(*[S.fresh('s') for _ in 'xyz'])) if shading else None
        # distinct vertices of the mesh (a repeated vertex makes the triangle degenerate)
        S.requires(S.And(S.ne(idx[0], idx[1]), S.ne(idx[1], idx[2]), S.ne(idx[0], idx[2])))
        for k in range(3):
            m.vertexIndex.put(3 * n + k, idx[k])
            m.p.put(idx[k], p[k])
            if uv:
                m.uvs.put(2 * idx[k], uvs[k][0])
                m.uvs.put(2 * idx[k] + 1, uvs[k][1])
            if shading:
                m.n.put(idx[k], ns[k])
                m.s.put(idx[k], ss[k])
    else:
        r = S.rng
        nt, nv = r.randint(1, 3), r.randint(3, 6)
        n = S.int('n', 0, nt - 1)
        rnd = lambda c: getattr(g, c)(*[r.uniform(-5, 5) for _ in 'xyz'])
        m.p = [rnd('Point') for _ in range(nv)]
        m.n = [rnd('Normal') for _ in range(nv)] if shading else None
        m.s = [rnd('Vector') for _ in range(nv)] if shading else None
        m.uvs = [r.uniform(-2, 2) for _ in range(2 * nv)] if uv else None
        m.vertexIndex = [r.randrange(nv) for _ in range(3 * nt)]
        idx = r.sample(range(nv), 3)
        for k in range(3):
            m.vertexIndex[3 * n + k] = idx[k]
            m.p[idx[k]] = p[k]
            if uv:
                m.uvs[2 * idx[k]], m.uvs[2 * idx[k] + 1] = uvs[k]
            if shading:
                m.n[idx[k]], m.s[idx[k]] = ns[k], ss[k]
    t = sh.Triangle(o2w, m.w2o, ro, m, n)
    if inverse is None:
        t.transform_swaps_handedness = S.bool('sw')
    return t, p, uvs, m, ns, ss


def crossing(S, p, unb=None, hit=False):
    """an arbitrary ray not parallel to the plane of the triangle p, written as the ray through the
    plane point p0 + b1 e1 + b2 e2 at parameter x; -> ray, b1, b2, x"""
    g = S.mod(G)
    e1, e2 = S.sub(p[1], p[0]), S.sub(p[2], p[0])
    d = S.vec('d')
    if S.symbolic or S.model is not None:
        b1, b2, x = S.real('b1'), S.real('b2'), S.real('x')
    else:
        lo, hi = (0, .5) if hit else (-.5, 1.5)
        b1, b2, x = S.real('b1', lo, hi), S.real('b2', lo, hi), S.real('x', 1 if hit else -1, 3)
    det = S.dot(S.cross(d, e2), e1)
    S.requires(S.ne(det, 0))
    if not S.symbolic:
        S.requires(abs(det) > 1e-2 and sum(c * c for c in S.cross(e1, e2)) > 1e-2)
    o = g.Point(*[p[0][i] + b1 * e1[i] + b2 * e2[i] - x * d[i] for i in range(3)])
    mint = S.real('mint') if S.symbolic or S.model else S.real('mint', -1, 1)
    unb = S.bool('unb') if unb is None else unb
    maxt = S.inf if unb else (S.real('maxt') if S.symbolic or S.model else S.real('maxt', 3 if hit else 0, 4))
    return g.Ray(o, d, mint, maxt), b1, b2, x


def inside(S, r, b1, b2, x):
    return S.And(S.le(0, b1), S.le(0, b2), S.le(b1 + b2, 1), S.le(r.mint, x), S.le(x, r.maxt))


def opaque_frames(S):
    """normalize and coordinate_system: contract only (their own contracts are in C01)"""
    if S.symbolic:
        g = S.mod(G)
        fv = lambda: g.Vector(*[S.fresh('c') for _ in 'xyz'])
        S.stub(G + ':coordinate_system', lambda v: (v, fv(), fv()))
        S.stub(G + ':normalize', lambda v: v)
        S.stub(G + '.diffgeom:normalize', lambda v: v)


@contract(P, [TR + ':Triangle.intersect', TR + ':Triangle.intersect_p'], weight=3, cancel=True, tol=1e-6)
def hit_iff_crossing(S):
    """hit exactly when the ray crosses the plane inside the triangle and inside its range; t is the crossing"""
    t, p, uvs, m, _, _ = tri(S, uv=False)
    r, b1, b2, x = crossing(S, p)
    opaque_frames(S)
    sr = S.snap(r)
    res = t.intersect(r)
    hp = S.truth(t.intersect_p(r))
    S.ensures('ray unchanged', S.unchanged(r, sr))
    S.ensures('four results', len(res) == 4)
    hit = S.truth(res[0])
    S.ensures('hit exactly when the crossing lies in the triangle and in the range', S.Iff(hit, inside(S, r, b1, b2, x)))
    S.ensures('predicate: hit exactly when the crossing lies in the triangle and in the range', S.Iff(hp, inside(S, r, b1, b2, x)))
    if res[0]:
        S.ensures('parameter of the crossing', S.eq(res[1], x))
        S.ensures('error bound positive for positive parameters', S.Implies(S.lt(0, x), S.And(S.lt(0, res[2]), S.lt(res[2], x))))


@contract(P, [TR + ':Triangle.intersect', TR + ':Triangle.intersect_p'], cancel=True)
def parallel_rays_miss(S):
    """rays parallel to the plane (and triangles without area) report no hit"""
    g = S.mod(G)
    t, p, uvs, m, _, _ = tri(S, uv=False)
    e1, e2 = S.sub(p[1], p[0]), S.sub(p[2], p[0])
    a, b = S.real('a'), S.real('b')
    d = g.Vector(*[a * e1[i] + b * e2[i] for i in range(3)])
    if not S.symbolic:
        S.requires(S.dot(S.cross(d, e2), e1) == 0)
    r = g.Ray(S.point('o'), d, S.real('mint'), S.inf)
    S.ensures('no hit', S.Not(S.truth(t.intersect(r)[0])))
    S.ensures('no hit by the predicate', S.Not(S.truth(t.intersect_p(r))))


@contract(P, TR + ':Triangle.intersect', weight=4, cancel=True, tol=1e-6)
def hit_record(S):
    """the record of a hit: point, interpolated uv, owner, flat normal derivative"""
    with_uv = S.bool('uv')
    t, p, uvs, m, _, _ = tri(S, uv=with_uv)
    r, b1, b2, x = crossing(S, p, False, True)
    S.requires(inside(S, r, b1, b2, x))
    if not S.symbolic and uvs:
        S.requires(abs((uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) - (uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1])) > 1e-2)
    opaque_frames(S)
    hit, th, eps, dg = t.intersect(r)
    q = r(x)
    b0 = 1 - b1 - b2
    for i in range(3):
        S.ensures('hit point is the ray point', S.eq(dg.p[i], r.o[i] + x * r.d[i]))
        S.ensures('hit point is the barycentric combination of the vertices', S.eq(dg.p[i], b0 * p[0][i] + b1 * p[1][i] + b2 * p[2][i]))
    w = uvs or [[0, 0], [1, 0], [1, 1]]
    S.ensures('u interpolates the vertex values', S.eq(dg.u, b0 * w[0][0] + b1 * w[1][0] + b2 * w[2][0]))
    S.ensures('v interpolates the vertex values', S.eq(dg.v, b0 * w[0][1] + b1 * w[1][1] + b2 * w[2][1]))
    S.ensures('record refers to the triangle', dg.shape is t)
    S.ensures('flat: no change of normal', S.And(*[S.eq(y[i], 0) for y in (dg.dndu, dg.dndv) for i in range(3)]))


@contract(P, TR + ':Triangle.intersect', weight=4, tol=1e-6, cancel=True, div='assume')
def hit_derivatives(S):
    """dp/du and dp/dv are the derivatives of the affine uv parametrisation"""
    t, p, uvs, m, _, _ = tri(S, uv=S.bool('uv'))
    r, b1, b2, x = crossing(S, p, True, True)
    S.requires(inside(S, r, b1, b2, x))
    e1, e2 = S.sub(p[1], p[0]), S.sub(p[2], p[0])
    w = uvs or [[0, 0], [1, 0], [1, 1]]
    ud = (w[0][0] - w[2][0]) * (w[1][1] - w[2][1]) - (w[1][0] - w[2][0]) * (w[0][1] - w[2][1])
    S.requires(S.ne(ud, 0))
    if not S.symbolic:
        S.requires(abs(ud) > 1e-2)
    opaque_frames(S)
    hit, th, eps, dg = t.intersect(r)
    for k in (0, 1):
        for i in range(3):
            S.ensures('vertex differences follow the uv differences',
                      S.eq(dg.dpdu[i] * (w[k][0] - w[2][0]) + dg.dpdv[i] * (w[k][1] - w[2][1]), p[k][i] - p[2][i]))
    nn = S.cross(e1, e2)
    S.ensures('tangents lie in the plane', S.And(S.eq(S.dot(dg.dpdu, nn), 0), S.eq(S.dot(dg.dpdv, nn), 0)))
    S.ensures('normal orthogonal to the edges', S.And(S.eq(S.dot(dg.nn, e1), 0), S.eq(S.dot(dg.nn, e2), 0)))
    # orientation: along dp/du x dp/dv, flipped by reverse orientation xor handedness
    s = S.dot(S.cross(dg.dpdu, dg.dpdv), dg.nn)
    flip = bool(t.ro) != bool(t.transform_swaps_handedness)
    if not S.symbolic:
        S.ensures('orientation of the normal', S.le(s, 0) if flip else S.le(0, s))
        S.ensures('unit normal', S.eq(S.dot(dg.nn, dg.nn), 1))
    else:
        c = S.cross(dg.dpdu, dg.dpdv)
        S.ensures('orientation of the normal', S.And(*[S.eq(dg.nn[i], -c[i] if flip else c[i]) for i in range(3)]))


@contract(P, [TR + ':Triangle.intersect', TR + ':Triangle.intersect_p'], weight=3, cancel=True)
def alpha_mask(S):
    """points masked out by the alpha texture are no hits, in both queries; the mask sees the hit's uv"""
    t, p, uvs, m, _, _ = tri(S, uv=S.bool('uv'))
    r, b1, b2, x = crossing(S, p, True, True)
    S.requires(inside(S, r, b1, b2, x))
    if not S.symbolic:
        S.requires(S.And(inside(S, r, b1, b2, x)) is True)
        if uvs:
            S.requires(abs((uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) - (uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1])) > 1e-2)
    opaque_frames(S)
    a = S.real('alpha', 0, 1)
    seen = []

    class A(object):
        def evaluate(self, dg):
            seen.append((dg.u, dg.v))
            return a
    m.alphaTexture = A()
    h = S.truth(t.intersect(r)[0])
    hp = S.truth(t.intersect_p(r))
    S.ensures('hit exactly when the mask is not zero', S.Iff(h, a != 0))
    S.ensures('same for the predicate', S.Iff(hp, a != 0))
    S.ensures('mask evaluated', len(seen) == 2)
    w = uvs or [[0, 0], [1, 0], [1, 1]]
    for u, v in seen:
        for y, k in ((u, 0), (v, 1)):
            S.ensures('mask looked up at the uv of the hit', S.eq(y, (1 - b1 - b2) * w[0][k] + b1 * w[1][k] + b2 * w[2][k]))


@contract(P, [TR + ':Triangle.area', TR + ':Triangle.world_bound', TR + ':Triangle.__getitem__'])
def measure(S):
    t, p, uvs, m, _, _ = tri(S, uv=False)
    e1, e2 = S.sub(p[1], p[0]), S.sub(p[2], p[0])
    c = S.cross(e1, e2)
    a = t.area()
    S.ensures('area is half the cross product', S.And(S.le(0, a), S.eq(4 * a * a, S.dot(c, c))))
    b = t.world_bound()
    for i in range(3):
        S.ensures('least box of the vertices', S.And(S.eq(b.pMin[i], S.min(S.min(p[0][i], p[1][i]), p[2][i])),
                                                     S.eq(b.pMax[i], S.max(S.max(p[0][i], p[1][i]), p[2][i]))))
    S.ensures('vertices by position', S.And(*[S.veq(t[k], p[k]) for k in range(3)]))


@contract(P, TR + ':Triangle.object_bound', weight=2)
def object_bound(S):
    t, p, uvs, m, _, _ = tri(S, uv=False, inverse=False)
    b = t.object_bound()
    for k in range(3):
        q = m.w2o(p[k])
        for i in range(3):
            S.ensures('encloses every vertex in object space', S.And(S.le(b.pMin[i], q[i]), S.le(q[i], b.pMax[i])))


@contract(P, TR + ':Triangle.sample', weight=2)
def sampled_point(S):
    t, p, uvs, m, _, _ = tri(S, uv=False)
    u1, u2 = S.real('a', 0, 1), S.real('b', 0, 1)
    e1, e2 = S.sub(p[1], p[0]), S.sub(p[2], p[0])
    c = S.cross(e1, e2)
    S.requires(S.lt(0, S.dot(c, c)))
    if not S.symbolic:
        S.requires(sum(x * x for x in c) > 1e-2)
    b1, b2 = S.get('pytracer.montecarlo:uniform_sample_triangle')(u1, u2)
    q, n = t.sample(u1, u2)
    for i in range(3):
        S.ensures('the barycentric combination of the vertices', S.eq(q[i], b1 * p[0][i] + b2 * p[1][i] + (1 - b1 - b2) * p[2][i]))
    S.ensures('inside', S.And(S.le(0, b1), S.le(0, b2), S.le(b1 + b2, 1)))
    sg = -1 if t.ro else 1
    S.ensures('unit normal', S.eq(S.dot(n, n), 1))
    l = S.sqrt(S.dot(c, c))
    S.ensures('normal direction and orientation', S.And(*[S.eq(sg * n[i] * l, c[i]) for i in range(3)]))


@contract(P, TR + ':Triangle.get_shading_geometry', weight=3, tol=1e-4, div='assume', cancel=True)
def shading(S):
    """interpolated shading frame at the barycentric position given by (u, v)"""
    g = S.mod(G)
    t, p, uvs, m, ns, ss = tri(S, shading=True)
    have = S.choice('have', ['both', 'normals', 'none'])
    if have != 'both':
        m.s = None
    if have == 'none':
        m.n = None
    k = [S.real('k%d' % i, .25, 4) for i in range(3)]
    o2w = m.o2w = S.mod('pytracer.transform').Transform.scale(*k)
    b1, b2 = S.real('b1', 0, 1), S.real('b2', 0, 1)
    b0 = 1 - b1 - b2
    if S.symbolic:
        # rename: the interpolated normal and tangent are arbitrary vectors W, X; vertex 0 is solved for them
        S.requires(S.ne(b0, 0), 'barycentric weight of vertex 0 nonzero')
        W, X = [S.real('w' + c) for c in 'xyz'], [S.real('x' + c) for c in 'xyz']
        ns[0] = g.Normal(*[(W[i] * k[i] - b1 * ns[1][i] - b2 * ns[2][i]) / b0 for i in range(3)])
        ss[0] = g.Vector(*[(X[i] / k[i] - b1 * ss[1][i] - b2 * ss[2][i]) / b0 for i in range(3)])
        ii = m.vertexIndex[t.v]
        for q, z in ((m.n, ns[0]), (m.s, ss[0])):
            if q is not None:
                q.set(ii, z)
    D = (uvs[1][0] - uvs[0][0]) * (uvs[2][1] - uvs[0][1]) - (uvs[2][0] - uvs[0][0]) * (uvs[1][1] - uvs[0][1])
    S.requires(S.ne(D, 0))
    if not S.symbolic:
        S.requires(abs(D) > .1)
    nn = S.unit('gn', 'Normal')
    dg = g.DifferentialGeometry.__new__(g.DifferentialGeometry)
    dg.p, dg.dpdu, dg.dpdv, dg.dndu, dg.dndv, dg.nn = S.point('q'), S.vec('du'), S.vec('dv'), S.normal('a'), S.normal('b'), nn
    dg.u = b0 * uvs[0][0] + b1 * uvs[1][0] + b2 * uvs[2][0]
    dg.v = b0 * uvs[0][1] + b1 * uvs[1][1] + b2 * uvs[2][1]
    dg.shape = t
    dg.dudx, dg.dvdx, dg.dudy, dg.dvdy = [S.real(x) for x in ('e1', 'e2', 'e3', 'e4')]
    dg.dpdx, dg.dpdy = S.vec('px'), S.vec('py')
    opaque_frames(S)
    if S.symbolic:
        S.stub(G + ':coordinate_system', lambda v: S.requires(False, 'interpolated tangent and normal not parallel'))
        # the second tangent is normalised in place: contract of Vector.normalize (C01), a positive multiple
        def scaled(v):
            c = S.fresh('norm')
            S.assume(S.lt(0, c))
            for i in range(3):
                v[i] = v[i] * c
            return v
        S.stub(G + ':Vector.normalize', scaled)
    else:
        S.requires(S.dot(dg.dpdu, dg.dpdu) > .1)
    # expected interpolated normal and tangent (up to length)
    iw = g.Normal(*[b0 * ns[0][i] + b1 * ns[1][i] + b2 * ns[2][i] for i in range(3)])
    want = [iw[i] / k[i] for i in range(3)]
    tn = [(b0 * ss[0][i] + b1 * ss[1][i] + b2 * ss[2][i]) * k[i] for i in range(3)] if have == 'both' else dg.dpdu
    ts = S.cross(tn, want)
    if have != 'none':
        if not S.symbolic:
            S.requires(S.dot(want, want) > .05)
            S.requires(S.dot(ts, ts) > 1e-2 * max(1., S.dot(tn, tn) * S.dot(want, want)))
    r = t.get_shading_geometry(o2w, dg)
    if have == 'none':
        S.ensures('without shading data the record is returned as it is', r is dg)
        return
    S.ensures('position and parameters kept', S.And(S.veq(r.p, dg.p), S.same(r.u, dg.u), S.same(r.v, dg.v), r.shape is t))
    S.ensures('differentials kept', S.And(*[S.same(getattr(r, c), getattr(dg, c)) for c in ('dudx', 'dvdx', 'dudy', 'dvdy')] +
                                          [S.veq(r.dpdx, dg.dpdx), S.veq(r.dpdy, dg.dpdy)]))
    c = S.cross(ts, want)
    for i in range(3):
        j = (i + 1) % 3
        S.ensures('second tangent along tangent x interpolated normal', S.eq(r.dpdv[i] * ts[j], r.dpdv[j] * ts[i]))
        S.ensures('first tangent completes the frame with the interpolated normal', S.eq(r.dpdu[i] * c[j], r.dpdu[j] * c[i]))
    if not S.symbolic:
        S.ensures('orientation', S.And(S.le(0, S.dot(r.dpdv, ts)), S.le(0, S.dot(r.dpdu, c))))
        S.ensures('unit second tangent', S.eq(S.dot(r.dpdv, r.dpdv), 1))
    # normal derivatives follow the uv parametrisation
    for q in (0, 1):
        for i in range(3):
            du, dv = uvs[q][0] - uvs[2][0], uvs[q][1] - uvs[2][1]
            S.ensures('normal differences follow the uv differences',
                      S.eq((r.dndu[i] * du + r.dndv[i] * dv) * k[i], ns[q][i] - ns[2][i]))


# ------------------------------------------------------------------ meshes
@contract(P, [TR + ':TriangleMesh.__init__', TR + ':TriangleMesh.refine', TR + ':TriangleMesh.world_bound', TR + ':TriangleMesh.object_bound'],
          bounded='mesh of 4 vertices and 2 triangles', weight=2, cancel=True)
def mesh(S):
    sh = S.mod(H)
    g = S.mod(G)
    k = [S.real('k%d' % i, .25, 4) for i in range(3)]
    tr = S.vec('t')
    T = S.mod('pytracer.transform').Transform
    o2w = T.translate(tr) * T.scale(*k)
    world = lambda q: g.Point(*[q[i] * k[i] + tr[i] for i in range(3)])
    P0 = [S.point('p%d' % i) for i in range(4)]
    vi = [2, 0, 3, 1, 3, 0]
    m = sh.TriangleMesh(o2w, o2w.inverse(), S.bool('ro'), 2, 4, vi, P0)
    ts = m.refine()
    S.ensures('one triangle per index triple', len(ts) == 2)
    for a in range(2):
        for j in range(3):
            S.ensures('vertices in world space', S.veq(ts[a][j], world(P0[vi[3 * a + j]])))
    S.ensures('meshes are refined before intersection', m.can_intersect() is False and ts[0].can_intersect() is True)
    S.ensures('triangles keep the orientation of the mesh', all(x.ro == m.ro for x in ts))
    w = [world(q) for q in P0]
    # boxes of any four points (C02); the transformed points are renamed
    if S.symbolic:
        pts = [S.point('w%d' % i) for i in range(4)]
        m.p = pts
        m.w2o = lambda q: P0[[i for i in range(4) if q is pts[i]][0]]
    else:
        pts = m.p
    b = m.world_bound()
    S.ensures('bound encloses all vertices', S.And(*[S.And(S.le(b.pMin[i], pts[a][i]), S.le(pts[a][i], b.pMax[i])) for a in range(4) for i in range(3)]))
    c = m.object_bound()
    for a in range(4):
        q = m.w2o(pts[a])
        for i in range(3):
            S.ensures('object bound encloses all vertices', S.And(S.le(c.pMin[i], q[i]), S.le(q[i], c.pMax[i])))
    vi[0] = 1
    if not S.symbolic:
        S.ensures('index list copied', S.veq(ts[0][0], world(P0[2])))


@contract(P, TR + ':create_triangle_mesh', n=.3, bounded='up to 3 triangles over 5 vertices')
def mesh_creation(S):
    f = S.get(TR + ':create_triangle_mesh')
    tr = S.mod('pytracer.transform').Transform()
    n = S.choice('tris', [1, 2, 3])
    bad = S.choice('bad', ['no', 'index', 'ragged', 'short uv', 'points ragged'])
    vi = [(3 * k + 2 * j) % 5 for k in range(n) for j in range(3)]
    pts = [S.real('c%d' % i) for i in range(15)]
    prm = {'indices': vi, 'P': pts}
    if bad == 'index':
        vi[1] = 5
    if bad == 'ragged':
        vi.append(0)
    if bad == 'points ragged':
        pts.append(S.real('c15'))
    if bad == 'short uv':
        prm['uv'] = [S.num(0)] * 9
    if bad != 'no':
        S.ensures('malformed input is rejected', S.raises(RuntimeError, f, tr, tr, False, prm))
        return
    m = f(tr, tr, False, prm)
    S.ensures('counts', m.ntris == n and m.nverts == 5)
    ts = m.refine()
    S.ensures('triangles', len(ts) == n)
    for k in range(n):
        for j in range(3):
            S.ensures('vertices', S.veq(ts[k][j], pts[3 * vi[3 * k + j]:3 * vi[3 * k + j] + 3]))
