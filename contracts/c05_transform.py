"""C05: transforms are invertible, compose, and act consistently on every geometric type."""
from pyvc.api import contract

T = 'pytracer.transform'
G = 'pytracer.geometry'
P = 'C05'


def mat(S, m):
    return [[m[i][j] for j in range(4)] for i in range(4)]


def mmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(4)), 0) for j in range(4)] for i in range(4)]


def is_inverse(S, t, name=''):
    p, q = mmul(mat(S, t.m), mat(S, t.m_inv)), mmul(mat(S, t.m_inv), mat(S, t.m))
    for i in range(4):
        for j in range(4):
            S.ensures('%sm . m_inv is the identity' % name, S.eq(p[i][j], int(i == j)))
            S.ensures('%sm_inv . m is the identity' % name, S.eq(q[i][j], int(i == j)))


def affine(S, n, inverse=True):
    """an arbitrary affine Transform with its exact inverse (representation invariant assumed)"""
    if not S.symbolic:
        return conc_affine(S, n)
    tr = S.mod(T)
    np = tr.np
    A = np.eye(4)
    B = np.eye(4)
    for i in range(3):
        for j in range(4):
            A[i, j] = S.real('%sm%d%d' % (n, i, j))
            B[i, j] = S.real('%sv%d%d' % (n, i, j)) if inverse else A[i, j]
    if inverse:
        a, b = mmul(A, B), mmul(B, A)
        for i in range(3):
            for j in range(4):
                S.requires(S.eq(a[i][j], int(i == j)))
                S.requires(S.eq(b[i][j], int(i == j)))
    return tr.Transform(A, B)


def inv_hyps(S, t):
    """the equations M M^-1 = I and M^-1 M = I as (left, right) pairs"""
    a, b = mmul(mat(S, t.m), mat(S, t.m_inv)), mmul(mat(S, t.m_inv), mat(S, t.m))
    f = lambda m: [[(m[i][j], int(i == j)) for j in range(4)] for i in range(4)]
    return f(a), f(b)


def conc_affine(S, n):
    """well conditioned random affine map given as matrix + numerically exact inverse"""
    tr = S.mod(T)
    np = tr.np
    vals = [[S.real('%sm%d%d' % (n, i, j), -2, 2) for j in range(4)] for i in range(3)]
    if S.model is not None and n + 'm00' in S.model:
        m = np.array(vals + [[0., 0., 0., 1.]])
    else:
        k = S.rng.random()
        m = np.array(vals + [[0., 0., 0., 1.]])
        if k < .6:
            # elementary maps: exact matrices
            m = np.eye(4)
            for _ in range(S.rng.randint(1, 3)):
                q = S.rng.randrange(3)
                e = np.eye(4)
                if q == 0:
                    for i in range(3):
                        e[i, 3] = S.rng.randint(-8, 8) / 2.
                elif q == 1:
                    for i in range(3):
                        e[i, i] = S.rng.choice([-2., -1., .5, 1., 2., 4.])
                else:
                    i, j = S.rng.sample(range(3), 2)
                    e[i, i] = e[j, j] = .6
                    e[i, j], e[j, i] = -.8, .8
                m = m.dot(e)
            for i in range(3):
                for j in range(4):
                    S.inputs['%sm%d%d' % (n, i, j)] = float(m[i, j])
    if abs(np.linalg.det(m[:3, :3])) < .05:
        S.requires(False)
    return tr.Transform(m, np.linalg.inv(m))


# ------------------------------------------------------------ constructors
@contract(P, T + ':Transform.__init__')
def ctor_identity(S):
    t = S.mod(T).Transform()
    is_inverse(S, t)
    for i in range(4):
        for j in range(4):
            S.ensures('default is the identity', S.eq(t.m[i][j], int(i == j)))
    S.ensures('is_identity', S.truth(t.is_identity()))


@contract(P, T + ':Transform.__init__', secs=2)
def ctor_pair(S):
    """the matrices are copied and cannot be modified afterwards"""
    tr = S.mod(T)
    np = tr.np
    A, B = np.zeros((4, 4)), np.zeros((4, 4))
    for i in range(4):
        for j in range(4):
            A[i, j], B[i, j] = S.real('a%d%d' % (i, j)), S.real('b%d%d' % (i, j))
    t = tr.Transform(A, B)
    u = t.copy()
    v = t.inverse()
    sa, sb = S.snap(A), S.snap(B)
    A0, B0 = A.copy(), B.copy()
    A[1, 2] = S.num(77)
    B[2, 1] = S.num(78)
    for i in range(4):
        for j in range(4):
            S.ensures('m kept', S.same(t.m[i, j], A0[i, j]))
            S.ensures('m_inv kept', S.same(t.m_inv[i, j], B0[i, j]))
            S.ensures('copy keeps m', S.same(u.m[i, j], A0[i, j]))
            S.ensures('copy keeps m_inv', S.same(u.m_inv[i, j], B0[i, j]))
            S.ensures('inverse() swaps', S.And(S.same(v.m[i, j], B0[i, j]), S.same(v.m_inv[i, j], A0[i, j])))
    def w1():
        t.m[0, 0] = 5
    def w2():
        t.m_inv[0, 0] = 5
    def w3():
        v.m[0, 0] = 5
    S.ensures('m is read-only', S.raises(ValueError, w1))
    S.ensures('m_inv is read-only', S.raises(ValueError, w2))
    S.ensures('m of the inverse is read-only', S.raises(ValueError, w3))


@contract(P, T + ':Transform.__init__')
def ctor_single(S):
    """inverse computed from the matrix (diagonal-dominant affine class)"""
    tr = S.mod(T)
    np = tr.np
    A = np.eye(4)
    for i in range(3):
        A[i, 3] = S.real('t%d' % i)
        A[i, i] = S.real('s%d' % i)
        S.requires(S.Or(S.lt(A[i, i], 0), S.lt(0, A[i, i])))
    A[0, 1] = S.real('h')
    if not S.symbolic:
        S.requires(all(abs(A[i, i]) > .1 for i in range(3)))
    t = tr.Transform(A)
    is_inverse(S, t)
    for i in range(4):
        for j in range(4):
            S.ensures('m kept', S.same(t.m[i, j], A[i, j]))


@contract(P, T + ':Transform.translate')
def f_translate(S):
    d = S.vec('d')
    t = S.mod(T).Transform.translate(d)
    is_inverse(S, t)
    p = S.point('p')
    q = t(p)
    v = S.vec('v')
    S.ensures('points move by delta', S.veq(q, S.add(p, d)))
    S.ensures('directions do not move', S.veq(t(v), v))


@contract(P, T + ':Transform.scale')
def f_scale(S):
    s = [S.real(c) for c in 'xyz']
    for x in s:
        S.requires(S.Or(S.lt(x, 0), S.lt(0, x)))
        if not S.symbolic:
            S.requires(abs(x) > 1e-2)
    t = S.mod(T).Transform.scale(*s)
    is_inverse(S, t)
    p, v, n = S.point('p'), S.vec('v'), S.normal('n')
    S.ensures('points', S.veq(t(p), [p[i] * s[i] for i in range(3)]))
    S.ensures('directions', S.veq(t(v), [v[i] * s[i] for i in range(3)]))
    m = t(n)
    for i in range(3):
        S.ensures('normals scale inversely', S.eq(m[i] * s[i], n[i]))


def rot_post(S, t, axis, ang, check_dir):
    """t is the right-handed rotation by ang degrees about the unit axis"""
    is_inverse(S, t)
    m = mat(S, t.m)
    c, s = S.cos(ang * S.pi / 180), S.sin(ang * S.pi / 180)
    # Rodrigues: R v = v cos + (k x v) sin + k (k.v)(1-cos)
    for j in range(3):
        e = [int(i == j) for i in range(3)]
        kx = S.cross(axis, e)
        for i in range(3):
            want = e[i] * c + kx[i] * s + axis[i] * axis[j] * (1 - c)
            S.ensures('rotation matrix', S.eq(m[i][j], want))
    for i in range(3):
        S.ensures('no translation', S.And(S.eq(m[i][3], 0), S.eq(m[3][i], 0)))
    S.ensures('homogeneous unit', S.eq(m[3][3], 1))


for _k, _f in enumerate(('rotate_x', 'rotate_y', 'rotate_z')):
    def _mk(k, f):
        @contract(P, T + ':Transform.' + f)
        def c(S):
            a = S.real('angle', *(() if S.symbolic else (-400, 400)))
            rot_post(S, getattr(S.mod(T).Transform, f)(a), [int(i == k) for i in range(3)], a, True)
        return c
    from pyvc import api as _api
    _c = _mk(_k, _f)
    _api.REG[P][-1].name = 'f_' + _f


@contract(P, T + ':Transform.rotate', weight=3, cancel=True)
def f_rotate(S):
    a = S.real('angle', *(() if S.symbolic else (-400, 400)))
    k = S.unit('k')
    rot_post(S, S.mod(T).Transform.rotate(a, k), k, a, True)


@contract(P, T + ':Transform.rotate', weight=3)
def f_rotate_scaled_axis(S):
    """only the direction of the axis matters"""
    a = S.real('angle', *(() if S.symbolic else (-400, 400)))
    k = S.unit('k')
    r = S.real('len', *(() if S.symbolic else (.1, 10)))
    S.requires(S.lt(0, r))
    tr = S.mod(T).Transform
    v = k * r
    sv = S.snap(v)
    if S.symbolic:
        # contract of normalize (C01): returns the unit vector, argument unchanged
        g = S.mod(G)
        S.stub(G + ':normalize', lambda w: g.Vector(k.x, k.y, k.z))
    t1, t2 = tr.rotate(a, v), tr.rotate(a, k)
    S.ensures('axis unchanged', S.unchanged(v, sv))
    for i in range(4):
        for j in range(4):
            S.ensures('independent of the length of the axis', S.eq(t1.m[i, j], t2.m[i, j]))


@contract(P, T + ':Transform.look_at', weight=4)
def f_look_at(S):
    """camera space -> world space: origin to pos, +z onto the view direction, +y in the plane of up"""
    g = S.mod(G)
    pos = S.point('p')
    d = S.unit('d')
    l = S.real('l', *(() if S.symbolic else (.5, 10)))
    S.requires(S.lt(0, l))
    up = S.unit('u')
    # up not parallel to the view direction: sine of the angle is s > 0
    cr = S.cross(up, d)
    if S.symbolic:
        s = S.real('s')
        S.requires(S.lt(0, s))
        S.requires(S.eq(s * s, S.dot(cr, cr)))
    else:
        s = S.sqrt(S.dot(cr, cr))
        S.requires(s > .05)
    look = pos + d * l
    if S.symbolic:
        def norm(w):
            # contract of normalize (C01): w / |w| ; |w| is the positive root
            for cand, ln in ((d, l), (up, 1), (cr, s)):
                x = S.And(*[S.eq(w[i], cand[i] * ln) for i in range(3)]) if cand is not cr else S.veq(w, cr)
                if S.proves(x):
                    if cand is cr:
                        return g.Vector(*[S.div(cr[i], s) for i in range(3)])
                    return g.Vector(*[cand[i] for i in range(3)])
            raise S.Unsupported('normalize of an unexpected vector')
        S.stub(G + ':normalize', norm)
    t = S.mod(T).Transform.look_at(pos, look, up)
    is_inverse(S, t)
    m = mat(S, t.m)
    for i in range(3):
        S.ensures('origin maps to pos', S.eq(m[i][3], pos[i]))
        S.ensures('+z maps to the view direction', S.eq(m[i][2], d[i]))
        S.ensures('+x maps to up x view, normalised', S.eq(m[i][0] * s, cr[i]))
    x = [m[i][0] for i in range(3)]
    y = [m[i][1] for i in range(3)]
    yy = S.cross(d, x)
    for i in range(3):
        S.ensures('+y completes the frame', S.eq(y[i], yy[i]))
        S.ensures('affine', S.eq(m[3][i], 0))
    S.ensures('homogeneous unit', S.eq(m[3][3], 1))


@contract(P, T + ':Transform.orthographic')
def f_orthographic(S):
    n, f = S.real('n'), S.real('f')
    S.requires(S.lt(n, f))
    if not S.symbolic:
        S.requires(f - n > .05)
    t = S.mod(T).Transform.orthographic(n, f)
    is_inverse(S, t)
    p = S.point('p')
    q = t(p)
    S.ensures('x,y unchanged', S.And(S.eq(q.x, p.x), S.eq(q.y, p.y)))
    S.ensures('depth mapped affinely, near to 0 and far to 1', S.eq(q.z * (f - n), p.z - n))


@contract(P, T + ':Transform.perspective')
def f_perspective(S):
    fov = S.real('fov', 1, 179) if not S.symbolic else S.real('fov')
    n, f = S.real('n'), S.real('f')
    S.requires(S.And(S.lt(0, fov), S.lt(fov, 180), S.lt(0, n), S.lt(n, f)))
    if not S.symbolic:
        S.requires(n > .05 and f - n > .05)
    a = fov * S.pi / 360
    t = S.mod(T).Transform.perspective(fov, n, f)
    is_inverse(S, t)
    p = S.point('p')
    S.requires(S.lt(0, p.z))
    m = mat(S, t.m)
    tan = S.div(S.sin(a), S.cos(a))
    for i, row in enumerate([[1, 0, 0, 0], [0, 1, 0, 0]]):
        for j in range(4):
            S.ensures('x,y scaled by 1/tan(fov/2)', S.eq(m[i][j] * tan, row[j]))
    S.ensures('w is z', S.And(S.eq(m[3][2], 1), *[S.eq(m[3][j], 0) for j in (0, 1, 3)]))
    # near plane -> 0, far plane -> 1 (after the divide by w = z)
    S.ensures('near plane to depth 0', S.eq(m[2][2] * n + m[2][3], 0))
    S.ensures('far plane to depth 1', S.eq(m[2][2] * f + m[2][3], f))
    S.ensures('depth row', S.And(S.eq(m[2][0], 0), S.eq(m[2][1], 0)))


# ------------------------------------------------------------ action
@contract(P, T + ':Transform.__call__', weight=2)
def apply_point(S):
    t, p = affine(S, 't'), S.point('p')
    sp = S.snap(p)
    q = t(p)
    m = t.m
    for i in range(3):
        S.ensures('affine image', S.eq(q[i], m[i, 0] * p[0] + m[i, 1] * p[1] + m[i, 2] * p[2] + m[i, 3]))
    S.ensures('type', type(q) is S.mod(G).Point)
    S.ensures('argument unchanged', S.unchanged(p, sp))


@contract(P, T + ':Transform.__call__', weight=2)
def apply_point_projective(S):
    """homogeneous divide for projective matrices"""
    tr = S.mod(T)
    np = tr.np
    A = np.eye(4)
    for i in range(4):
        for j in range(4):
            A[i, j] = S.real('m%d%d' % (i, j))
    t = tr.Transform(A, A)
    p = S.point('p')
    w = A[3, 0] * p[0] + A[3, 1] * p[1] + A[3, 2] * p[2] + A[3, 3]
    S.requires(S.Or(S.lt(w, 0), S.lt(0, w)))
    S.requires(S.Or(S.lt(w, S.num(.999)), S.lt(S.num(1.001), w)))
    if not S.symbolic:
        S.requires(abs(w) > 1e-3)
    q = t(p)
    for i in range(3):
        S.ensures('homogeneous image', S.eq(q[i] * w, A[i, 0] * p[0] + A[i, 1] * p[1] + A[i, 2] * p[2] + A[i, 3]))


@contract(P, T + ':Transform.__call__')
def apply_vector(S):
    t, v = affine(S, 't'), S.vec('v')
    sv = S.snap(v)
    q = t(v)
    m = t.m
    for i in range(3):
        S.ensures('linear image', S.eq(q[i], m[i, 0] * v[0] + m[i, 1] * v[1] + m[i, 2] * v[2]))
    S.ensures('type', type(q) is S.mod(G).Vector)
    S.ensures('argument unchanged', S.unchanged(v, sv))


@contract(P, T + ':Transform.__call__', weight=2)
def apply_normal(S):
    t, n, v = affine(S, 't'), S.normal('n'), S.vec('v')
    sn = S.snap(n)
    q = t(n)
    w = t(v)
    h = inv_hyps(S, t)
    S.ensures('incidence with directions is preserved', S.eq(S.dot(q, w), S.dot(n, v)),
              by=[(n[a] * v[b],) + h[1][a][b] for a in range(3) for b in range(3)])
    S.ensures('type', type(q) is S.mod(G).Normal)
    S.ensures('argument unchanged', S.unchanged(n, sn))


@contract(P, T + ':Transform.__call__', weight=2)
def apply_ray(S):
    g = S.mod(G)
    t = affine(S, 't')
    o, d = S.point('o'), S.vec('d')
    r = g.Ray(o, d, S.real('mint'), S.real('maxt'), S.int('depth'), S.real('time'))
    s = S.snap(r)
    q = t(r)
    S.ensures('origin as a point', S.veq(q.o, t(o)))
    S.ensures('direction as a vector', S.veq(q.d, t(d)))
    S.ensures('range kept', S.And(S.same(q.mint, r.mint), S.same(q.maxt, r.maxt)))
    S.ensures('depth and time kept', S.And(S.same(q.depth, r.depth), S.same(q.time, r.time)))
    S.ensures('argument unchanged', S.unchanged(r, s))
    S.ensures('type', type(q) is g.Ray)
    # parametric points correspond
    x = S.real('x')
    S.ensures('points at equal parameter correspond', S.veq(q(x), t(r(x))))


@contract(P, T + ':Transform.__call__', weight=2)
def apply_ray_differential(S):
    g = S.mod(G)
    t = affine(S, 't')
    r = g.RayDifferential(S.point('o'), S.vec('d'), S.real('mint'), S.real('maxt'), S.int('depth'), S.real('time'))
    r.has_differentials = S.bool('hd')
    r.rxOrigin, r.ryOrigin = S.point('xo'), S.point('yo')
    r.rxDirection, r.ryDirection = S.vec('xd'), S.vec('yd')
    s = S.snap(r)
    q = t(r)
    S.ensures('type', type(q) is g.RayDifferential)
    S.ensures('main ray', S.And(S.veq(q.o, t(r.o)), S.veq(q.d, t(r.d))))
    S.ensures('offset origins', S.And(S.veq(q.rxOrigin, t(r.rxOrigin)), S.veq(q.ryOrigin, t(r.ryOrigin))))
    S.ensures('offset directions', S.And(S.veq(q.rxDirection, t(r.rxDirection)), S.veq(q.ryDirection, t(r.ryDirection))))
    S.ensures('flag kept', q.has_differentials == r.has_differentials)
    S.ensures('range, depth, time kept', S.And(S.same(q.mint, r.mint), S.same(q.maxt, r.maxt), S.same(q.depth, r.depth), S.same(q.time, r.time)))
    S.ensures('argument unchanged', S.unchanged(r, s))


@contract(P, [T + ':Transform.__call__', T + ':Transform.inverse'], weight=3)
def inverse_roundtrip(S):
    t = affine(S, 't')
    i = t.inverse()
    p, v, n = S.point('p'), S.vec('v'), S.normal('n')
    h, k = inv_hyps(S, t)
    a, b, c = i(t(p)), i(t(v)), i(t(n))
    for j in range(3):
        S.ensures('points return', S.eq(a[j], p[j]), by=[((list(p) + [1])[e],) + k[j][e] for e in range(4)])
        S.ensures('directions return', S.eq(b[j], v[j]), by=[(v[e],) + k[j][e] for e in range(3)])
        S.ensures('normals return', S.eq(c[j], n[j]), by=[(n[e],) + k[e][j] for e in range(3)])


@contract(P, T + ':Transform.__mul__', weight=3)
def compose(S):
    a, b = affine(S, 'a'), affine(S, 'b')
    c = a * b
    p, v, n = S.point('p'), S.vec('v'), S.normal('n')
    S.ensures('points', S.veq(c(p), a(b(p))))
    S.ensures('directions', S.veq(c(v), a(b(v))))
    S.ensures('normals', S.veq(c(n), a(b(n))))


@contract(P, T + ':Transform.__mul__', weight=4)
def compose_inverse(S):
    """the representation invariant m . m_inv = I is preserved by composition"""
    a, b = affine(S, 'a'), affine(S, 'b')
    c = a * b
    A, Ai, B, Bi = mat(S, a.m), mat(S, a.m_inv), mat(S, b.m), mat(S, b.m_inv)
    m, v = mat(S, c.m), mat(S, c.m_inv)
    ab, ba = mmul(A, B), mmul(Bi, Ai)
    for i in range(4):
        for j in range(4):
            S.ensures('m = A B', S.eq(m[i][j], ab[i][j]))
            S.ensures('m_inv = B^-1 A^-1', S.eq(v[i][j], ba[i][j]))


@contract(P, [T + ':Transform.__eq__', T + ':Transform.__ne__', T + ':Transform.is_identity'])
def equality(S):
    a = affine(S, 'a', False)
    b = affine(S, 'b', False) if S.bool('distinct') else a.copy()
    same = S.And(*[S.same(a.m[i, j], b.m[i, j]) for i in range(3) for j in range(4)])
    S.ensures('== compares the matrices', S.Iff(S.truth(a == b), same))
    S.ensures('!= is the negation', S.Iff(S.truth(a != b), S.Not(same)))
    idn = S.And(*[S.same(a.m[i, j], int(i == j)) for i in range(3) for j in range(4)])
    S.ensures('is_identity', S.Iff(S.truth(a.is_identity()), idn))


@contract(P, T + ':Transform.swaps_handedness')
def handedness(S):
    a = affine(S, 'a', False)
    m = a.m
    det = S.dot([m[0, i] for i in range(3)], S.cross([m[1, i] for i in range(3)], [m[2, i] for i in range(3)]))
    if not S.symbolic:
        S.requires(abs(det) > 1e-6)
    S.ensures('determinant negative', S.Iff(S.truth(a.swaps_handedness()), S.lt(det, 0)))


@contract(P, T + ':Transform.has_scale')
def scale_flag(S):
    a = affine(S, 'a', False)
    q = [S.dot([a.m[i, j] for j in range(3)], [a.m[i, j] for j in range(3)]) for i in range(3)]
    e = S.num('0.00001')
    unit = S.And(*[S.And(S.le(1 - e, x), S.le(x, 1 + e)) for x in q])
    S.ensures('true iff some axis is not of unit length', S.Iff(S.truth(a.has_scale()), S.Not(unit)))


@contract(P, 'pytracer.shape:Shape.world_bound', weight=3)
def world_bound(S):
    """the world bound of a shape encloses the image of every point of its object bound"""
    g = S.mod(G)
    sh = S.mod('pytracer.shape')
    t = affine(S, 't', False)
    lo, hi = S.point('lo'), S.point('hi')
    S.requires(S.And(*[S.le(lo[i], hi[i]) for i in range(3)]))

    class Sh(sh.Shape):
        def object_bound(self):
            return g.BBox(lo, hi)
        refine = intersect = intersect_p = area = None
    s = Sh(t, t, False)
    b = s.world_bound()
    u = [S.real('u%d' % i, 0, 1) for i in range(3)]
    p = [lo[i] + u[i] * (hi[i] - lo[i]) for i in range(3)]
    for i in range(3):
        # x_i is affine in each coordinate: bounded by the corner values
        x = t.m[i, 3]
        mn, mx = t.m[i, 3], t.m[i, 3]
        for j in range(3):
            x = x + t.m[i, j] * p[j]
            a, c = t.m[i, j] * lo[j], t.m[i, j] * hi[j]
            S.lemma('corner interval %d%d' % (i, j), S.And(S.le(S.min(a, c), t.m[i, j] * p[j]), S.le(t.m[i, j] * p[j], S.max(a, c))))
            mn, mx = mn + S.min(a, c), mx + S.max(a, c)
        S.ensures('lower bound %d is the least image coordinate' % i, S.eq(b.pMin[i], mn))
        S.ensures('upper bound %d is the greatest image coordinate' % i, S.eq(b.pMax[i], mx))
        S.ensures('encloses %d' % i, S.And(S.le(b.pMin[i], x), S.le(x, b.pMax[i])))
