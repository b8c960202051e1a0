"""C22: texture coordinates, procedural textures and noise."""
from pyvc import api
from pyvc.api import contract
from contracts.c17_lights import placed, partial, same, Rec
from contracts.c18_volume import point_in, colour, each

X = 'pytracer.texture.texturemap'
T = 'pytracer.texture.texture'
U = 'pytracer.texture.utility'
G = 'pytracer.geometry'
P = 'C22'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)
SO = dict(div='assume', sqrt='assume', tol=1e-6)


def surface(S, lo=-2, hi=2):
    """a hit record with its differentials"""
    k = dict(p=S.point('p', lo, hi), dpdx=S.vec('dpdx', -1, 1), dpdy=S.vec('dpdy', -1, 1))
    for n in ('u', 'v', 'dudx', 'dvdx', 'dudy', 'dvdy'):
        k[n] = S.real(n, -2, 2)
    return Rec(**k)


def plane(S, dg):
    """an arbitrary mapping to the plane: notes what it is asked"""
    w = [S.real('map_%s' % n, -4, 4) for n in ('s', 't', 'dsdx', 'dtdx', 'dsdy', 'dtdy')]

    def m(d):
        S.ensures('mapping asked about the point', d is dg)
        return list(w)
    return m, w


def source(S, name, dg, lo=0, hi=1):
    v = S.real(name, lo, hi)

    def t(d):
        S.ensures('texture asked about the point', d is dg)
        return v
    return t, v


def fun(S, name):
    """symbolically an arbitrary function of reals"""
    return lambda *a: S.fn(name, *a)


# ------------------------------------------------------------------ mappings
@contract(P, [X + ':UVMapping2D.__call__', X + ':PlannarMapping2D.__call__', X + ':IdentityMapping3D.__call__'], **SO)
def affine_mappings(S):
    """coordinates are affine in (u, v), in the position along two axes, or those of the placed point; differentials are their linear part"""
    m = S.mod(X)
    dg = surface(S)
    kind = S.choice('kind', ['uv', 'plane', 'solid'])
    snap = [S.snap(x) for x in (dg.p, dg.dpdx, dg.dpdy)]
    if kind == 'uv':
        su, sv, du, dv = [S.real(n, -3, 3) for n in ('su', 'sv', 'du', 'dv')]
        out = m.UVMapping2D(su, sv, du, dv)(dg)
        want = [su * dg.u + du, sv * dg.v + dv, su * dg.dudx, sv * dg.dvdx, su * dg.dudy, sv * dg.dvdy]
        S.ensures('affine in u and v', S.And(len(out) == 6, *[S.eq(a, b) for a, b in zip(out, want)]))
    elif kind == 'plane':
        vs, vt = S.vec('vs', -2, 2), S.vec('vt', -2, 2)
        ds, dt = S.real('ds', -2, 2), S.real('dt', -2, 2)
        out = m.PlannarMapping2D(vs, vt, ds, dt)(dg)
        want = [ds + S.dot(dg.p, vs), dt + S.dot(dg.p, vt), S.dot(dg.dpdx, vs), S.dot(dg.dpdx, vt), S.dot(dg.dpdy, vs), S.dot(dg.dpdy, vt)]
        S.ensures('position along the axes', S.And(len(out) == 6, *[S.eq(a, b) for a, b in zip(out, want)]))
    else:
        t = placed(S)
        out = m.IdentityMapping3D(t)(dg)
        S.ensures('three results', len(out) == 3)
        S.ensures('the placed point', S.Implies(S.And(*[S.eq(t.m[3, j], 1 if j == 3 else 0) for j in range(4)]), same(S, out[0], point_in(S, t.m, dg.p))))
        for o, d in ((out[1], dg.dpdx), (out[2], dg.dpdy)):
            S.ensures('the placed differentials', same(S, o, [sum(t.m[i, j] * d[j] for j in range(3)) for i in range(3)]))
    S.ensures('record unchanged', S.And(*[S.unchanged(x, s) for x, s in zip((dg.p, dg.dpdx, dg.dpdy), snap)]))


@contract(P, [X + ':SphericalMapping2D.__call__', X + ':CylindricalMapping2D.__call__'], shards=2, **O)
def around_axis(S):
    """polar angle and azimuth (or azimuth and height) of the direction of the placed point as parts of their range; differentials are forward
    differences, the azimuth taken the short way round"""
    m, g = S.mod(X), S.mod(G)
    dg = surface(S)
    kind = S.choice('kind', ['sphere', 'cylinder'])
    pl = [[S.real('q%d%d' % (k, i), -2, 2) for i in range(3)] for k in range(3)]   # images of the point and of the two points beside it
    for q in pl:
        S.requires(S.lt(0 if S.symbolic else .05, S.sqrt(q[0] * q[0] + q[1] * q[1])))
    asked = []
    step = S.num('.1')
    at = [[dg.p[i] + (step * (0, dg.dpdx, dg.dpdy)[k][i] if k else 0) for i in range(3)] for k in range(3)]

    def w2t(p):
        k = len(asked) % 3
        asked.append(k)
        S.ensures('the point and the points a tenth of the differentials away', same(S, p, at[k]))
        return g.Point(*pl[k])
    if S.symbolic:
        def angle(name, top):
            def f(v):
                a = S.fn(name, *[v[i] for i in range(3)])
                S.requires(S.And(S.le(0, a), S.le(a, top)))
                return a
            return f
        S.stub(G + '.utility:spherical_theta', angle('theta', S.pi))
        S.stub(G + '.utility:spherical_phi', angle('phi', 2 * S.pi))
    out = (m.SphericalMapping2D if kind == 'sphere' else m.CylindricalMapping2D)(w2t)(dg)
    place = []
    for q in pl:
        v = g.normalize(g.Point(*q) - g.Point(0., 0., 0.))
        if kind == 'sphere':
            place.append([S.div(g.spherical_theta(v), S.pi), S.div(g.spherical_phi(v), 2 * S.pi)])
        else:
            place.append([S.div(S.pi + S.atan2(v.y, v.x), 2 * S.pi), v.z])
    S.ensures('six numbers', len(out) == 6)
    S.ensures('place of the point', S.And(S.eq(out[0], place[0][0]), S.eq(out[1], place[0][1])))
    turn = 1 if kind == 'sphere' else 0
    for k in (1, 2):
        for c in (0, 1):
            d = place[k][c] - place[0][c]
            e = out[2 * k + c] * step
            if c == turn:
                S.ensures('azimuth differs by the difference up to a turn', S.Or(S.eq(e, d), S.eq(e, d - 1), S.eq(e, d + 1)))
                S.ensures('the short way round', S.And(S.le(e, S.num('.5')), S.le(-S.num('.5'), e)))
            else:
                S.ensures('forward difference', S.eq(e, d))


# ------------------------------------------------------------------ combinations
@contract(P, [T + ':' + n + '.__call__' for n in ('ConstantTexture', 'ScaleTexture', 'MixTexture', 'BilerpTexture', 'UVTexture')], **SO)
def combinations(S):
    """constants, products, mixtures, bilinear interpolation and the picture of the coordinates"""
    m = S.mod(T)
    dg = Rec()
    kind = S.choice('kind', ['constant', 'scale', 'mix', 'bilerp', 'uv'])
    (t1, a), (t2, b), (t3, c) = source(S, 'a', dg), source(S, 'b', dg), source(S, 'c', dg)
    if kind == 'constant':
        v = Rec()
        S.ensures('the value', m.ConstantTexture(v)(dg) is v)
    elif kind == 'scale':
        S.ensures('product', S.eq(m.ScaleTexture(t1, t2)(dg), a * b))
    elif kind == 'mix':
        S.ensures('mixture', S.eq(m.MixTexture(t1, t2, t3)(dg), a * (1 - c) + b * c))
    else:
        mp, w = plane(S, dg)
        s, t = w[0], w[1]
        if kind == 'bilerp':
            v = [[S.real('v%d%d' % (i, j), -2, 2) for j in range(2)] for i in range(2)]
            out = m.BilerpTexture(mp, v[0][0], v[0][1], v[1][0], v[1][1])(dg)
            S.ensures('bilinear', S.eq(out, sum(v[i][j] * (s if i else 1 - s) * (t if j else 1 - t) for i in range(2) for j in range(2))))
        else:
            out = m.UVTexture(mp)(dg)
            S.ensures('fractional parts as red and green', S.And(S.eq(out[0], s - S.floor(s)), S.eq(out[1], t - S.floor(t)), S.eq(out[2], 0)))


# ------------------------------------------------------------------ checkerboards
@contract(P, [T + ':Chekcerboard2DTexture.__call__', T + ':Checkboard3DTexture.__call__'], **O)
def checks(S):
    """checks of unit width alternate in two or three directions"""
    m = S.mod(T)
    dg = Rec()
    (t1, a), (t2, b) = source(S, 'a', dg), source(S, 'b', dg)
    kind = S.choice('kind', ['point', 'solid'])
    if kind == 'solid':
        p = S.point('q', -4, 4)
        if not S.symbolic:
            S.requires(S.And(*[S.lt(.001, p[i] - S.floor(p[i])) for i in range(3)]))
        out = m.Checkboard3DTexture(lambda d: [p, None, None], t1, t2)(dg)
        n = S.floor(p.x) + S.floor(p.y) + S.floor(p.z)
        e = S.eq(n, 2 * S.floor(S.div(n, 2)))
        S.ensures('alternating cubes', S.And(S.Implies(e, S.eq(out, a)), S.Implies(S.Not(e), S.eq(out, b))))
        return
    if kind == 'point':
        mp, w = plane(S, dg)
        s, t = w[0], w[1]
        if not S.symbolic:
            S.requires(S.And(S.lt(.001, s - S.floor(s)), S.lt(.001, t - S.floor(t))))
        n = S.floor(s) + S.floor(t)
        e = S.eq(n, 2 * S.floor(S.div(n, 2)))
        out = m.Chekcerboard2DTexture(mp, t1, t2, S.choice('aa', ['none', None]))(dg)
        S.ensures('alternating squares', S.And(S.Implies(e, S.eq(out, a)), S.Implies(S.Not(e), S.eq(out, b))))
        return


@contract(P, [T + ':Chekcerboard2DTexture.__call__'], **SO)
def wide_checks(S):
    """boxes wider than a check on either side get the average"""
    m = S.mod(T)
    dg = Rec()
    (t1, a), (t2, b) = source(S, 'a', dg), source(S, 'b', dg)
    mp, w = plane(S, dg)
    ds, dt = S.max(S.abs(w[2]), S.abs(w[4])), S.max(S.abs(w[3]), S.abs(w[5]))
    S.requires(S.Or(S.lt(1, ds), S.lt(1, dt)))
    S.ensures('the average where the box is wide', S.eq(2 * m.Chekcerboard2DTexture(mp, t1, t2)(dg), a + b))


@contract(P, [T + ':Chekcerboard2DTexture.__call__'], shards=4, split_floor=True, **O)
def filtered_checks(S):
    """the second texture has the part of the box of the differentials that lies in its checks, also where only one coordinate varies"""
    m = S.mod(T)
    dg = Rec()
    (t1, a), (t2, b) = source(S, 'a', dg), source(S, 'b', dg)
    # the box from (s0, t0) to (s1, t1), the end points given by an even number and the rest
    case = S.choice('case', ['parts', 'only s', 'only t'])
    ends, sizes, odd, mids = [], [], [], []
    for n in 'st':
        flat = case == 'only ' + ('t' if n == 's' else 's')
        k, r = [], []
        for i in range(1 if flat else 2):
            k.append(k[0] + S.int('d' + n, 0, 1) if i else S.int('k' + n, -2, 2))      # two at most apart
            r.append(S.choice('odd%s%d' % (n, i), [0, 1]) + S.real('r%s%d' % (n, i), 0, 1))
        for i, y in enumerate(r):
            S.requires(S.lt(y, S.floor(y) + 1) if not S.symbolic else S.lt(S.real('r%s%d' % (n, i)), 1))
            if not S.symbolic:
                S.requires(S.And(S.lt(.001, y - S.floor(y)), S.lt(y - S.floor(y), .999)))
        e = [2 * i + x for i, x in zip(k, r)]
        if flat:
            e, h = e * 2, S.num(0)
        else:
            h = S.div(e[1] - e[0], 2)
            S.requires(S.lt(0, h))
        # length of [0, e] in odd checks
        o = [i + S.max(0, x - 1) for i, x in zip(k, r)]
        ends.append(e), sizes.append(h)
        odd.append(None if flat else o[1] - o[0])
        mids.append(S.div(e[0] + e[1], 2))
        if flat:
            parity = r[0] >= 1 if not S.symbolic else S.truth(S.le(1, r[0]))
            odd[-1] = 1 if parity else 0
    (s, t), (ds, dt) = mids, sizes
    flip = S.choice('which', [False, True])
    half = S.num('.5')
    (dsdx, dsdy), (dtdx, dtdy) = ((ds, -half * ds), (half * dt, -dt)) if flip else ((half * ds, -ds), (dt, half * dt))

    def mp(d):
        S.ensures('mapping asked about the point', d is dg)
        return [s, t, dsdx, dtdx, dsdy, dtdy]
    tex = m.Chekcerboard2DTexture(mp, t1, t2)
    S.requires(S.And(S.le(ds, 1), S.le(dt, 1)))
    out = tex(dg)
    fs, ft = odd
    ws, wt = (1 if case == 'only t' else 2 * ds), (1 if case == 'only s' else 2 * dt)
    second = fs * wt + ft * ws - 2 * fs * ft      # area of the checks of the second texture
    S.ensures('parts of the box', S.eq(out * ws * wt, (ws * wt - second) * a + second * b))


# ------------------------------------------------------------------ dots and marble
@contract(P, [T + ':DotsTexture.__call__'], **O)
def dots(S):
    """every cell has a disk of radius .35 or none, told by the noise of the cell, moved by noise within the cell"""
    m = S.mod(T)
    dg = Rec()
    mp, w = plane(S, dg)
    (t1, a), (t2, b) = source(S, 'a', dg), source(S, 'b', dg)
    n = fun(S, 'noise')
    if S.symbolic:
        S.stub(U + ':noise', lambda p: n(p[0], p[1], p[2]))
    half = S.num('.5')
    s, t = w[0], w[1]
    if not S.symbolic:
        S.requires(S.And(S.lt(.001, s + half - S.floor(s + half)), S.lt(.001, t + half - S.floor(t + half))))
    sc, tc = S.floor(s + half), S.floor(t + half)
    look = (lambda x, y: n(x, y, half)) if S.symbolic else (lambda x, y: S.get(U + ':noise')([x, y, .5]))
    lit = S.lt(0, look(sc + half, tc + half))
    shift = S.num('.15')
    cs, ct = sc + shift * look(sc + S.num('1.5'), tc + S.num('2.8')), tc + shift * look(sc + S.num('4.5'), tc + S.num('9.8'))
    near = S.lt((s - cs) * (s - cs) + (t - ct) * (t - ct), S.num('.1225'))
    out = m.DotsTexture(mp, t1, t2)(dg)
    S.ensures('inside a dot', S.Implies(S.And(lit, near), S.eq(out, a)))
    S.ensures('outside the dots', S.Implies(S.Or(S.Not(lit), S.Not(near)), S.eq(out, b)))


SPLINE = [[.58, .58, .6], [.58, .58, .6], [.58, .58, .6], [.5, .5, .5], [.6, .59, .58], [.58, .58, .6], [.58, .58, .6], [.2, .2, .33], [.58, .58, .6]]


@contract(P, [T + ':FBmTexture.__call__', T + ':WrinkledTexture.__call__', T + ':WindyTexture.__call__'], **SO)
def waves(S):
    """Brownian motion and turbulence of the mapped point with the octaves and roughness given; wind modulates waves"""
    m, g = S.mod(T), S.mod(G)
    dg = Rec()
    q = [S.real('x%d' % i, -2, 2) for i in range(9)]
    mk = lambda: [g.Point(*q[:3]), g.Vector(*q[3:6]), g.Vector(*q[6:])]
    kind = S.choice('kind', ['fbm', 'wrinkled', 'windy'])
    om, n = S.real('omega', .1, .9), S.int('octaves', 1, 5)
    made = mk()
    if S.symbolic:
        f = [fun(S, 'brownian'), fun(S, 'turbulent')]
        S.stub(U + ':FBm', lambda p, x, y, o, k: f[0](*([p[i] for i in range(3)] + [x[i] for i in range(3)] + [y[i] for i in range(3)] + [o, k])))
        S.stub(U + ':turbulence', lambda p, x, y, o, k: f[1](*([p[i] for i in range(3)] + [x[i] for i in range(3)] + [y[i] for i in range(3)] + [o, k])))
    else:
        S.requires(S.And(S.lt(.01, S.dot(made[1], made[1])), S.lt(.01, S.dot(made[2], made[2]))))
    u = S.mod(U)
    mp = lambda d: made if d is dg else None
    p, x, y = mk()
    if kind == 'fbm':
        S.ensures('Brownian motion', S.eq(m.FBmTexture(n, om, mp)(dg), u.FBm(p, x, y, om, n)))
    elif kind == 'wrinkled':
        S.ensures('turbulence', S.eq(m.WrinkledTexture(n, om, mp)(dg), u.turbulence(p, x, y, om, n)))
    else:
        tenth = S.num('.1')
        wind = u.FBm(g.Point(*[tenth * a for a in q[:3]]), g.Vector(*[tenth * a for a in q[3:6]]), g.Vector(*[tenth * a for a in q[6:]]), S.num('.5'), 3)
        S.ensures('waves times the strength of the wind', S.eq(m.WindyTexture(mp)(dg), S.abs(wind) * u.FBm(p, x, y, S.num('.5'), 6)))


@contract(P, [T + ':MarbleTexture.__call__'], **O)
def marble(S):
    """one and a half times the colour of the spline of marble at the height disturbed by Brownian motion"""
    m, g, u = S.mod(T), S.mod(G), S.mod(U)
    dg = Rec()
    q = [S.real('x%d' % i, -2, 2) for i in range(9)]
    mk = lambda k=1: [g.Point(*[k * a for a in q[:3]]), g.Vector(*[k * a for a in q[3:6]]), g.Vector(*[k * a for a in q[6:]])]
    om, n, scale, var = S.real('omega', .1, .9), S.int('octaves', 1, 5), S.real('scale', .5, 2), S.real('var', 0, 2)
    if S.symbolic:
        f = fun(S, 'brownian')
        S.stub(U + ':FBm', lambda p, x, y, o, k: f(*([p[i] for i in range(3)] + [x[i] for i in range(3)] + [y[i] for i in range(3)] + [o, k])))
    out = m.MarbleTexture(n, om, scale, var, lambda d: mk() if d is dg else None)(dg)
    p, x, y = mk(scale)
    h = scale * q[1] + var * u.FBm(p, x, y, om, n)
    c = (1 + S.sin(h)) * 3
    S.requires(S.Not(S.eq(c, S.floor(c)))) if not S.symbolic else None
    k = S.floor(c)
    for i in range(6):
        here = S.And(S.le(i, c), S.lt(c, i + 1) if i < 5 else S.le(c, 6))
        r = c - i
        w = [(1 - r) * (1 - r) * (1 - r), 3 * r * (1 - r) * (1 - r), 3 * r * r * (1 - r), r * r * r]
        S.ensures('colour of segment %d' % i, S.Implies(here, each(S, out, lambda j: S.num('1.5') * sum(w[l] * S.num(repr(SPLINE[i + l][j])) for l in range(4)))))
    S.ensures('always within the spline', S.And(S.le(0, c), S.le(c, 6)))


# ------------------------------------------------------------------ noise
@contract(P, [U + ':smooth_step'], **O)
def smooth(S):
    """nil below, one above, the smooth cubic of the relative position between"""
    lo, hi, x = S.real('lo', -1, 1), S.real('hi', 1, 2), S.real('x', -2, 3)
    S.requires(S.lt(lo, hi))
    f = S.get(U + ':smooth_step')
    out = f(lo, hi, x)
    S.ensures('nil below', S.Implies(S.le(x, lo), S.eq(out, 0)))
    S.ensures('one above', S.Implies(S.le(hi, x), S.eq(out, 1)))
    r = S.div(x - lo, hi - lo)
    S.ensures('cubic between', S.Implies(S.And(S.le(lo, x), S.le(x, hi)), S.eq(out, r * r * (3 - 2 * r))))


EDGES = [(1, 1, 0), (-1, 1, 0), (1, -1, 0), (-1, -1, 0), (1, 0, 1), (-1, 0, 1), (1, 0, -1), (-1, 0, -1),
         (0, 1, 1), (0, -1, 1), (0, 1, -1), (0, -1, -1), (1, 1, 0), (-1, 1, 0), (0, 1, -1), (0, -1, -1)]


@contract(P, [U + ':_grad'], **SO)
def gradient(S):
    """the offset along the edge of the cube that the scrambled number of the corner selects"""
    f = S.get(U + ':_grad')
    x, y, z = S.int('x', 0, 255), S.int('y', 0, 255), S.int('z', 0, 255)
    d = [S.real('d%d' % i, -1, 1) for i in range(3)]
    if S.symbolic:
        tab = S.array('PERM', S.fresh_int('size'), sort='int', facts=lambda a, i: [S.le(0, a.at(i)), S.le(a.at(i), 255)])
        S.requires(S.eq(tab.shape[0], 512))
        S.stub('pytracer.data.noise:NOISE_PERM', tab)
        at = tab.at
    else:
        at = lambda i: int(S.mod('pytracer.data.noise').NOISE_PERM[i])
    h = at(at(at(x) + y) + z) % 16
    out = f(x, y, z, d[0], d[1], d[2])
    for k in range(16):
        S.ensures('edge %d' % k, S.Implies(S.eq(h, k), S.eq(out, sum(c * e for c, e in zip(EDGES[k], d)))))


@contract(P, ['pytracer.data.noise:NOISE_PERM'], n=.01)
def table(S):
    """every number below 256 once, and all again so that sums need no wrapping"""
    m = S.mod('pytracer.data.noise')
    v = [int(x) for x in m.NOISE_PERM]
    S.ensures('a permutation twice', len(v) == 512 and sorted(v[:256]) == list(range(256)) and v[256:] == v[:256] and int(m.NOISE_PERM_SIZE) == 256)


@contract(P, [U + ':noise'], split_floor=True, **O)
def lattice_noise(S):
    """interpolation of the gradients at the eight corners of the cell (numbers modulo 256) by the quintic fade; nil at corners"""
    f = S.get(U + ':noise')
    p = [S.real('p%d' % i, -300, 300) for i in range(3)]
    if S.symbolic:
        g = lambda i, j, k, d: S.fn('gx', i, j, k) * d[0] + S.fn('gy', i, j, k) * d[1] + S.fn('gz', i, j, k) * d[2]
        c, d = [S.int('c%d' % i, -300, 300) for i in range(3)], [S.real('d%d' % i, 0, 1) for i in range(3)]
        S.requires(S.And(*[S.lt(x, 1) for x in d]))
        p = [k + x for k, x in zip(c, d)]
        S.stub(U + ':_grad', lambda i, j, k, x, y, z: g(i, j, k, (x, y, z)))
    else:
        gr = S.get(U + ':_grad')
        g = lambda i, j, k, d: gr(int(i), int(j), int(k), d[0], d[1], d[2])
        if S.bool('at a corner'):
            p = [float(int(x)) for x in p]
    c = [S.floor(x) for x in p]
    d = [x - k for x, k in zip(p, c)]
    m = [k % 256 for k in c] if S.symbolic else [int(k) % 256 for k in c]
    w = [x * x * x * (10 - 15 * x + 6 * x * x) for x in d]

    def blend(m, d, w):
        return sum(g(m[0] + i, m[1] + j, m[2] + k, (d[0] - i, d[1] - j, d[2] - k)) *
                   (w[0] if i else 1 - w[0]) * (w[1] if j else 1 - w[1]) * (w[2] if k else 1 - w[2])
                   for i in range(2) for j in range(2) for k in range(2))
    out = f(S.mod(G).Point(*p))
    S.ensures('interpolated gradients', S.eq(out, blend(m, d, w)))
    S.ensures('nil at corners', S.Implies(S.And(*[S.eq(x, 0) for x in d]), S.eq(out, 0)))
    if S.symbolic:
        for a in range(3):
            one = lambda v, x, a=a: [x if i == a else v[i] for i in range(3)]
            S.ensures('continuous across cells', S.eq(blend(m, one(d, S.num(1)), one(w, S.num(1))), blend(one(m, m[a] + 1), one(d, S.num(0)), one(w, S.num(0)))))


SUMS = {n: api.cut(U, n, 0) for n in ('FBm', 'turbulence')}


@contract(P, [U + ':FBm', U + ':turbulence'], **SO)
def octaves(S):
    """sum of as many octaves of noise as the differentials resolve, each 1.99 times as fine and omega times as strong as the one before, the last
    fading in; absolute values for turbulence; any number of octaves"""
    g = S.mod(G)
    name = S.choice('name', ['FBm', 'turbulence'])
    f = S.get(U + ':' + name)
    p, x, y = S.point('p', -2, 2), S.vec('x', -.5, .5), S.vec('y', -.5, .5)
    om, most = S.real('omega', .1, .9), S.int('most', 1, 6)
    flat = S.choice('flat', [False, True])
    if flat:
        x, y = g.Vector(0., 0., 0.), g.Vector(0., 0., 0.)
    s2 = S.max(S.dot(x, x), S.dot(y, y))
    if not flat:
        S.requires(S.lt(0 if S.symbolic else 1e-6, s2))
    n = fun(S, 'noise')
    mag = S.abs if name == 'turbulence' else lambda v: v
    fine = S.num('1.99')
    smooth = S.get(U + ':smooth_step')
    if S.symbolic:
        S.stub(U + ':noise', lambda q: n(q[0], q[1], q[2]))
        L = S.array('L', S.fresh_int('all'), facts=lambda a, k: [S.Implies(S.eq(k, 0), S.eq(a.at(0), 1))])
        noise = lambda q: n(q[0], q[1], q[2])
    else:
        noise = S.get(U + ':noise')
    limit = most if flat else S.min(most, 1 - S.div(S.log(s2), 2 * S.log(S.num(2))) if not S.symbolic else 1 - S.num('.5') * S.log2(s2))
    whole = S.floor(limit)
    if not S.symbolic:
        S.requires(S.Or(flat, S.lt(.001, limit - whole)))

    def octave(l, o):
        return o * mag(noise([l * p[i] for i in range(3)]))
    sp = [S.snap(v) for v in (p, x, y)]
    if not S.symbolic:
        out = f(p, x, y, om, most)
        want = sum(octave(1.99 ** i, om ** i) for i in range(int(max(whole, 0))))
        k = max(int(whole), 0)
        S.ensures('sum of octaves', S.eq(out, want + smooth(.3, .7, limit - whole) * octave(1.99 ** k, om ** k)))
        S.ensures('arguments unchanged', S.And(*[S.unchanged(v, s) for v, s in zip((p, x, y), sp)]))
        return
    # ghost: fineness and strength of octave i, and the sum of those before it
    fin = power(S, 'fine', fine)
    stg = power(S, 'strong', om)
    N = S.fresh_int('N')
    tot = partial(S, 'sum', N, lambda i: octave(fin(i), stg(i)))
    cut = SUMS[name]
    seen = []

    def role(v, val):
        if not seen or seen[-1] is None:
            pass
        if v in ('s', 'l', 'o'):
            ghost = dict(s=tot, l=fin, o=stg)[v]
        else:
            return None
        def havoc(i):
            S.requires(S.And(S.le(0, i), S.lt(i, N)))     # N is as large as need be
            last[0] = i
            return ghost(i)
        return havoc, (lambda val, i: S.eq(val, ghost(i)))
    last = [None]
    cut.accumulate(S, role)
    out = f(p, x, y, om, most)
    k = last[0]
    S.ensures('all octaves resolved', S.Or(S.eq(k, whole), S.And(S.lt(whole, 0), S.eq(k, 0))))
    S.ensures('sum of octaves', S.eq(out, tot(k) + smooth(S.num('.3'), S.num('.7'), limit - whole) * octave(fin(k), stg(k))))
    S.ensures('arguments unchanged', S.And(*[S.unchanged(v, s) for v, s in zip((p, x, y), sp)]))


def power(S, name, base):
    """ghost: base to the power i"""
    depth = [0]

    def facts(a, k):
        r = [S.Implies(S.eq(k, 0), S.eq(a.at(0), 1))]
        if depth[0] < 1:
            depth[0] += 1
            try:
                r.append(S.Implies(S.le(0, k), S.eq(a.at(k + 1), a.at(k) * base)))
            finally:
                depth[0] -= 1
        return r
    a = S.array(name, S.fresh_int('N' + name), facts=facts)
    return lambda i: a.at(i)
