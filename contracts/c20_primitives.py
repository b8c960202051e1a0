"""C20: primitives: what a hit reports, refinement, transformed primitives, lists of primitives, the scene."""
from pyvc import api
from pyvc.api import contract
from contracts.c04_bvh import Prim, npx_len, core, aimed
from contracts.c05_transform import affine

A = 'pytracer.aggregate'
Q = A + '.primitive'
M = A + '.aggregate'
I = A + '.intersection'
P = 'C20'
O = dict(div='assume', sqrt='assume', tol=1e-6)
REFINE = api.cut(Q, 'Primitive.full_refine', 0, api.WhileCut)
SIMPLE = {n: [api.cut(M, 'SimpleAggregate.' + n, k) for k in range(2)] for n in ('__init__', 'intersect', 'intersect_p')}
TREFINE = api.cut(Q, 'TransformedPrimitive.refine')
GREFINE = api.cut(Q, 'GeometricPrimitive.refine')
VOXEL = {n: [api.cut(M, 'Voxel.' + n, k) for k in range(2)] for n in ('intersect', 'intersect_p')}
FIELDS = ('dg', 'primitive', 'w2o', 'o2w', 'shapeId', 'primitiveId', 'rEps')


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


# ------------------------------------------------------------------ refinement
class Bag(object):
    """a list used as a worklist: its length, the number of nodes below its entries (weight), how many of them are above the witness"""

    def __init__(self, S, n, weight, count):
        self.S, self.n, self.weight, self.count = S, n, weight, count

    def __vlen__(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def pop(self, *at):
        from pyvc.sym import bterm, ctx
        S = self.S
        ctx().definedness('index', bterm(S.lt(0, self.n)))
        size, c = S.fresh_int('size'), S.fresh_int('c')
        S.requires(S.And(S.le(1, size), S.le(0, c), S.le(c, 1), S.le(c, self.count), S.le(size, self.weight - (self.n - 1)),
                         S.Implies(S.eq(self.n, 1), S.And(S.eq(size, self.weight), S.eq(c, self.count)))))
        self.n, self.weight, self.count = self.n - 1, self.weight - size, self.count - c
        return Part(S, size, c)

    def append(self, p):
        self.n, self.weight, self.count = self.n + 1, self.weight + p.size, self.count + p.c

    def extend(self, ps):
        for p in ps:
            self.append(p)


class Part(object):
    """a primitive to be refined: an arbitrary tree with size nodes; c tells whether the witness is below it"""

    def __init__(self, S, size, c):
        self.S, self.size, self.c = S, size, c
        self.leaf = S.eq(size, 1)

    def can_intersect(self):
        return self.leaf

    def refine(self, out):
        S = self.S
        S.ensures('only refinable primitives are refined', S.Not(self.leaf), 'requires')
        n = S.fresh_int('n')
        S.requires(S.And(S.le(1, n), S.le(n, self.size - 1)))
        if isinstance(out, list):
            b = getattr(self, 'bag')
            b.n, b.weight, b.count = n, self.size - 1, self.c
        else:
            out.n, out.weight, out.count = out.n + n, out.weight + self.size - 1, out.count + self.c

    def __hash__(self):
        return id(self)


class Out(object):
    def __init__(self, S, count):
        self.S, self.count = S, count

    def append(self, p):
        self.S.ensures('only intersectable primitives are results', p.leaf, 'requires')
        self.count = self.count + p.c

    def extend(self, ps):
        for p in ps:
            self.append(p)


class Tree(object):
    def __init__(self, kids=None):
        self.kids = kids

    def can_intersect(self):
        return self.kids is None

    def refine(self, out):
        for k in self.kids:
            out.append(k)

    def leaves(self):
        return [self] if self.kids is None else [l for k in self.kids for l in k.leaves()]


def tree(S, depth, name='t'):
    if depth == 0 or S.choice(name, ['leaf', 'inner', 'inner']) == 'leaf':
        return Tree()
    return Tree([tree(S, depth - 1, name + str(k)) for k in range(S.int(name + 'n', 1, 3))])


@contract(P, Q + ':Primitive.full_refine', **O)
def full_refine(S):
    """for a primitive of any depth: every intersectable part is appended exactly once, nothing else is; the refinement terminates"""
    K = S.mod(Q).Primitive
    if not S.symbolic:
        t = tree(S, 3)
        out = ['x']
        for k in S.mod(Q).Primitive.__mro__:
            pass
        t.full_refine = lambda o: K.full_refine(t, o)
        K.full_refine(t, out)
        S.ensures('every part once', out[0] == 'x' and sorted(map(id, out[1:])) == sorted(map(id, t.leaves())))
        return
    size, c, had = S.int('size', 1), S.int('below', 0, 1), S.int('had', 0)
    root = Part(S, size, c)
    out = Out(S, had)

    def havoc(loc, i):
        b = Bag(S, S.fresh_int('n'), S.fresh_int('weight'), S.fresh_int('count'))
        root.bag = b
        out.count = S.fresh_int('done')
        S.requires(inv(b))
        return {'todo': b}

    def inv(b):
        return S.And(S.le(0, b.n), S.le(b.n, b.weight), S.le(0, b.count), S.Implies(S.eq(b.n, 0), S.And(S.eq(b.weight, 0), S.eq(b.count, 0))), S.eq(out.count + b.count, had + c))

    def check(loc, i):
        b = loc['todo']
        if isinstance(b, list):
            b = Bag(S, len(b), sum(p.size for p in b), sum(p.c for p in b))
        S.ensures('every part is pending or done, once', inv(b), 'inv')
    REFINE.use(S, havoc, check)
    REFINE.variant = lambda loc: loc['todo'].weight
    K.full_refine(root, out)
    S.ensures('every part once', S.eq(out.count, had + c))


# ------------------------------------------------------------------ geometric primitives
def shape(S, hit, thit):
    s = Rec(w2o='w2o', o2w='o2w', shapeId=7)
    s.intersect = lambda r: [hit, thit, 'eps', 'dg'] if hit else [False, None, None, None]
    s.intersect_p = lambda r: hit
    return s


@contract(P, [Q + ':GeometricPrimitive.intersect', Q + ':GeometricPrimitive.intersect_p', Q + ':GeometricPrimitive.__init__'], **O)
def geometric(S):
    """a hit shortens the ray and fills the record with the shape's geometry, transforms and numbers and the primitive itself; a miss changes nothing"""
    m, g = S.mod(Q), S.mod('pytracer.geometry')
    hit = bool(S.bool('hit'))
    t = S.real('t')
    s = shape(S, hit, t)
    light = S.choice('light', [None, 'light'])
    n0 = m.Primitive.next_primitiveId
    p = m.GeometricPrimitive(s, 'material', light)
    p2 = m.GeometricPrimitive(s, 'material')
    S.ensures('numbers are unique', p.primitiveId == n0 and p2.primitiveId == n0 + 1)
    S.ensures('light', p.get_area_light() is light and p2.get_area_light() is None)
    r = g.Ray(S.point('o'), S.vec('d'), S.real('mint'), S.real('maxt'))
    was, o, d, mint = S.snap(r), r.o.copy(), r.d.copy(), r.mint
    S.ensures('predicate', p.intersect_p(r) is hit)
    S.ensures('predicate leaves the ray', S.unchanged(r, was))
    i = S.mod(I).Intersection()
    res = p.intersect(r, i)
    S.ensures('result', bool(res) == hit)
    if hit:
        S.ensures('the ray ends at the hit', S.eq(r.maxt, t))
        S.ensures('record', i.dg == 'dg' and i.primitive is p and i.w2o == 'w2o' and i.o2w == 'o2w' and i.shapeId == 7 and i.primitiveId == p.primitiveId and i.rEps == 'eps')
        S.ensures('nothing else of the ray', S.And(S.eq(r.mint, mint), S.veq(r.o, o), S.veq(r.d, d)))
    else:
        S.ensures('a miss changes nothing', S.And(S.unchanged(r, was), i.dg is None, i.primitive is None, i.w2o is None, i.primitiveId == 0))


@contract(P, [Q + ':GeometricPrimitive.refine', Q + ':GeometricPrimitive.can_intersect', Q + ':GeometricPrimitive.world_bound', Q + ':GeometricPrimitive.get_bsdf', Q + ':GeometricPrimitive.get_bssrdf'], **O)
def geometric_parts(S):
    """refining keeps material and light for every part, in order; material and shading geometry meet in the scattering functions"""
    m = S.mod(Q)
    s = Rec(can_intersect=lambda: 'can', world_bound=lambda: 'wb')
    s.get_shading_geometry = lambda o2w, dg: ('shading', o2w, dg)
    mat = Rec(get_bsdf=lambda dg, dgs: ('bsdf', dg, dgs), get_bssrdf=lambda dg, dgs: ('bssrdf', dg, dgs))
    p = m.GeometricPrimitive(s, mat, 'light')
    S.ensures('delegates', p.can_intersect() == 'can' and p.world_bound() == 'wb')
    S.ensures('bsdf', p.get_bsdf('dg', 'o2w') == ('bsdf', 'dg', ('shading', 'o2w', 'dg')))
    S.ensures('bssrdf', p.get_bssrdf('dg', 'o2w') == ('bssrdf', 'dg', ('shading', 'o2w', 'dg')))
    n = S.int('n', 0, 4)
    item = lambda k: Rec(k=k)
    parts = S.list(n, item) if S.symbolic else [item(k) for k in range(n)]
    s.refine = lambda: parts
    wraps(S, GREFINE, p, parts, n, lambda q: q.shape, lambda q: q.material is mat and q.areaLight == 'light' and type(q) is type(p))


def wraps(S, cut, p, parts, n, inner, ok, run=None):
    if not S.symbolic:
        out = ['x']
        p.refine(out)
        S.ensures('one primitive for every part', len(out) == n + 1 and out[0] == 'x')
        S.ensures('of the part', all(inner(q) is s and ok(q) for q, s in zip(out[1:], parts)))
        return
    w = S.int('w', 0)
    S.requires(S.lt(w, n))
    out = Appended(S)
    st = {}

    def havoc(loc, i):
        out.n = i
        st['i'] = i
        return {}

    def check(loc, i):
        if 'i' in st:
            S.ensures('one appended', len(out.new) == 1, 'inv')
            q = out.new[0]
            S.ensures('of the part', S.And(ok(q), inner(q) is parts[i - 1]), 'inv')
        S.ensures('as many as parts so far', S.eq(npx_len(out), i), 'inv')
        out.new = []
    cut.use(S, havoc, check)
    p.refine(out)
    S.ensures('one primitive for every part', S.eq(npx_len(out), n))


class Appended(object):
    def __init__(self, S):
        self.S, self.n, self.new = S, 0, []

    def append(self, x):
        self.new.append(x)

    def __vlen__(self):
        return self.n + len(self.new)


# ------------------------------------------------------------------ transformed primitives
def loose(S, n):
    """an affine map and its inverse; all that is used of their relation is that the inverse of the identity is the identity"""
    if not S.symbolic:
        return affine(S, n)
    tr = S.mod('pytracer.transform')
    m, v = tr.np.eye(4), tr.np.eye(4)
    for i in range(3):
        for j in range(4):
            m[i, j], v[i, j] = S.real('%sm%d%d' % (n, i, j)), S.real('%sv%d%d' % (n, i, j))
    one = lambda a: S.And(*[S.eq(a[i, j], int(i == j)) for i in range(3) for j in range(4)])
    S.requires(S.Implies(one(m), one(v)))
    return tr.Transform(m, v)


def placed(S):
    """a TransformedPrimitive around an abstract primitive; at the ray's time the placement is the affine map t (world to primitive)"""
    m = S.mod(Q)
    t = loose(S, 't')
    asked = []
    anim = Rec(interpolate=lambda time: asked.append(time) or t, motion_bounds=lambda b, inv=False: ('motion', b, inv))
    inner = Rec()
    return m.TransformedPrimitive(inner, anim), inner, t, asked


@contract(P, [Q + ':TransformedPrimitive.intersect', Q + ':TransformedPrimitive.intersect_p'], weight=2, **dict(O, tol=1e-4, cancel=True))
def transformed(S):
    """the contained primitive is asked with the ray of its space at the ray's time; a hit shortens the ray in the world as there, and the
    record is brought to the world; a miss changes nothing"""
    g = S.mod('pytracer.geometry')
    p, inner, t, asked = placed(S)
    hit = bool(S.bool('hit'))
    thit = S.real('thit')
    r = g.Ray(S.point('o'), S.vec('d'), S.real('mint'), S.real('maxt'), 0, S.real('time'))
    o, d, mint, maxt, time = r.o.copy(), r.d.copy(), r.mint, r.maxt, r.time
    pt, n = S.point('p'), S.unit('n', 'Normal')
    v = [S.vec('a'), S.vec('b')]
    nv = [S.normal('e'), S.normal('f')]
    tr = S.mod('pytracer.transform')
    before = loose(S, 'u')
    dg = Rec(p=pt.copy(), nn=n.copy(), dpdu=v[0].copy(), dpdv=v[1].copy(), dndu=nv[0].copy(), dndv=nv[1].copy())
    got = []

    def given(ray):
        got.append(ray)
        S.ensures('ray of the primitive space', S.And(ray is not r, S.veq(ray.o, t(o)), S.veq(ray.d, t(d)), S.eq(ray.mint, mint), S.eq(ray.maxt, maxt), S.eq(ray.time, time)), 'requires')

    def intersect(ray, isect):
        given(ray)
        if hit:
            ray.maxt = thit
            isect.dg, isect.primitive, isect.primitiveId, isect.w2o, isect.o2w = dg, inner, 3, before, before.inverse()
        return hit
    inner.intersect = intersect
    inner.intersect_p = lambda ray: given(ray) or hit
    if S.choice('which', ['predicate', 'record']) == 'predicate':
        S.ensures('predicate', p.intersect_p(r) is hit)
        S.ensures('at its time, once', len(got) == 1 and S.truth(S.eq(asked[0], time)))
        S.ensures('ray unchanged', S.And(S.veq(r.o, o), S.veq(r.d, d), S.eq(r.mint, mint), S.eq(r.maxt, maxt)))
        return
    i = S.mod(I).Intersection()
    inv = t.inverse()
    want = inv(n)
    q2 = S.dot(want, want)
    S.requires(S.lt(0, q2))                      # the placement is invertible
    if S.symbolic:
        S.requires(S.And(S.lt(0, S.sqrt(q2)), S.eq(S.sqrt(q2) * S.sqrt(q2), q2)))
    res = p.intersect(r, i)
    S.ensures('result', bool(res) == hit and len(got) == 1)
    S.ensures('at its time', S.eq(asked[0], time))
    S.ensures('the ray in the world', S.And(S.veq(r.o, o), S.veq(r.d, d), S.eq(r.mint, mint), S.eq(r.maxt, thit if hit else maxt)))
    if not hit:
        S.ensures('a miss changes nothing', i.dg is None and i.primitive is None and i.primitiveId == 0)
        return
    S.ensures('primitive', i.primitive is inner and i.primitiveId == p.primitiveId and i.dg is dg)
    S.ensures('point', S.veq(dg.p, inv(pt)))
    S.ensures('tangents', S.And(S.veq(dg.dpdu, inv(v[0])), S.veq(dg.dpdv, inv(v[1]))))
    S.ensures('normal derivatives', S.And(S.veq(dg.dndu, inv(nv[0])), S.veq(dg.dndv, inv(nv[1]))))
    S.ensures('normal along the transformed one', S.And(*[S.eq(x, 0) for x in S.cross(dg.nn, want)]))
    S.ensures('normal on its side', S.eq(S.dot(dg.nn, want), S.sqrt(q2)))
    S.ensures('unit normal', S.eq(S.dot(dg.nn, dg.nn), 1))
    q = S.point('q')
    S.ensures('placement of the object', S.veq(i.w2o(q), before(t(q))))
    S.ensures('placement of the object, inverse', S.veq(i.o2w(q), inv(before.inverse()(q))))


@contract(P, [Q + ':TransformedPrimitive.refine', Q + ':TransformedPrimitive.can_intersect', Q + ':TransformedPrimitive.world_bound',
              Q + ':TransformedPrimitive.get_area_light', Q + ':TransformedPrimitive.get_bsdf', Q + ':TransformedPrimitive.get_bssrdf'], **O)
def transformed_parts(S):
    """bounds are those of the motion of the inner bound; parts share the placement; light and scattering functions are those of the inner primitive"""
    p, inner, t, asked = placed(S)
    inner.world_bound = lambda: 'wb'
    inner.can_intersect = lambda: 'can'
    inner.get_area_light = lambda: 'light'
    inner.get_bsdf = lambda dg, o2w: ('bsdf', dg, o2w)
    inner.get_bssrdf = lambda dg, o2w: ('bssrdf', dg, o2w)
    S.ensures('bound of the motion, from primitive to world', p.world_bound() == ('motion', 'wb', True))
    S.ensures('delegates', p.can_intersect() == 'can' and p.get_area_light() == 'light' and p.get_bsdf('dg', 'o2w') == ('bsdf', 'dg', 'o2w') and
              p.get_bssrdf('dg', 'o2w') == ('bssrdf', 'dg', 'o2w'))
    n = S.int('n', 0, 4) if not S.symbolic else S.choice('n', [0, 1, 3])
    parts = [Rec(k=k) for k in range(n)]
    inner.refine = lambda out: out.extend(parts)
    out = ['x']
    p.refine(out)
    S.ensures('one for every part', len(out) == n + 1 and out[0] == 'x' and all(q.primitive is s and q.w2p is p.w2p and type(q) is type(p) for q, s in zip(out[1:], parts)))


# ------------------------------------------------------------------ lists of primitives
class World(object):
    """N abstract primitives: number k is hit at T(k) when h(k) > 0 and T(k) lies in the range; w is an arbitrary one"""

    def __init__(self, S):
        g = S.mod('pytracer.geometry')
        self.S = S
        self.N = S.int('N', 1)
        self.T, self.h = S.array('T', self.N), S.array('h', self.N)
        self.w = S.int('w', 0)
        S.requires(S.lt(self.w, self.N))
        self.mint, self.maxt = S.real('mint'), S.real('maxt')
        S.requires(S.le(self.mint, self.maxt))
        self.ray = g.Ray(S.point('o'), S.vec('d'), self.mint, self.maxt)
        self.relevant = self.can(self.w, self.maxt)
        self.record, self.token = None, {}
        self.prims = S.list(self.N, self.prim)

    def can(self, k, maxt):
        S = self.S
        return S.And(S.lt(0, self.h.at(k)), S.le(self.mint, self.T.at(k)), S.le(self.T.at(k), maxt))

    def fill(self, isect, k):
        key = str(k)
        tok = self.token.setdefault(key, Rec(k=k))
        for f in FIELDS:
            setattr(isect, f, (f, tok))

    def filled(self, isect):
        """the number of the primitive whose record this is, or None for a blank one"""
        vs = [getattr(isect, f) for f in FIELDS]
        if all(isinstance(v, tuple) and v[0] == f and v[1] is vs[0][1] for v, f in zip(vs, FIELDS)):
            return vs[0][1].k
        return None

    def prim(self, k):
        S = self.S

        def intersect(r, isect):
            S.ensures('primitives are given the ray', r is self.ray, 'requires')
            if S.decide(self.can(k, r.maxt)):
                r.maxt = self.T.at(k)
                self.fill(isect, k)
                return True
            return False
        return Rec(k=k, intersect=intersect, intersect_p=lambda r: S.decide(self.can(k, r.maxt)), can_intersect=lambda: True)

    def state(self, isect, maxt):
        """the record is that of a primitive hit at the end of the range; without one nothing has changed"""
        S = self.S
        q = self.filled(isect)
        if q is None:
            return S.And(all(getattr(isect, f) in (None, 0, 0.) for f in FIELDS), S.eq(maxt, self.maxt))
        return S.And(S.le(0, q), S.lt(q, self.N), self.can(q, self.maxt), S.eq(self.T.at(q), maxt))

    def arbitrary(self, isect, blank):
        S = self.S
        if S.decide(S.fresh_bool('hit')):
            q = S.fresh_int('q')
            self.fill(isect, q)
            self.ray.maxt = S.fresh('maxt')
            S.requires(self.state(isect, self.ray.maxt))
            return True
        for f in FIELDS:
            setattr(isect, f, getattr(blank, f))
        self.ray.maxt = self.maxt
        return False

    def answered(self, isect):
        S = self.S
        return S.Implies(self.relevant, S.And(self.filled(isect) is not None, S.le(self.ray.maxt, self.T.at(self.w))))

    def box(self):
        """a bound whose test accepts whenever some primitive is hit"""
        S = self.S
        hit = S.fresh_bool('box')
        S.requires(S.Implies(self.relevant, hit))
        self.boxed = hit

        def test(r):
            S.ensures('bound is tested with the ray', r is self.ray, 'requires')
            return [hit, S.fresh('t0'), S.fresh('t1')]
        return Rec(intersect_p=test)


def sampled(S, n):
    g = S.mod('pytracer.geometry')
    out = []
    for i in range(n):
        lo = [S.choice('c%d%d' % (i, k), [-1., 0., 1., 2.]) for k in range(3)]
        e = [S.choice('e%d%d' % (i, k), [0., .5, 1., 3.]) for k in range(3)]
        p = Prim(i, lo, [x + y for x, y in zip(lo, e)], core(S, i, lo, e))
        p.world_bound = lambda p=p: g.BBox(g.Point(*p.lo), g.Point(*p.hi))
        p.can_intersect = lambda: True

        def intersect(r, isect, p=p):
            t = p.hit(r)
            if t is None:
                return False
            r.maxt = t
            for f in FIELDS:
                setattr(isect, f, (f, p))
            return True
        p.intersect = intersect
        out.append(p)
    return out


def sampled_ray(S, prims):
    g = S.mod('pytracer.geometry')
    d = [S.choice('d?%d' % k, [0., 1., -1., None]) for k in range(3)]
    d = [S.real('d%d' % k, -1, 1) if x is None else x for k, x in enumerate(d)]
    S.requires(any(x != 0 for x in d))
    o = [S.choice('o?%d' % k, [0., 1.5, -2., None]) for k in range(3)]
    o = [S.real('o%d' % k, -4, 4) if x is None else x for k, x in enumerate(o)]
    d = aimed(S, prims, o, d)
    S.requires(any(x != 0 for x in d))
    return g.Ray(g.Point(*o), g.Vector(*d), S.choice('mint', [0., .5]), S.choice('range', [2., 10., float('inf')]))


def compare(S, a, prims):
    r = sampled_ray(S, prims)
    m0 = r.maxt
    ts = [p.hit(r) for p in prims]
    best = min([t for t in ts if t is not None] or [None], key=lambda t: t)
    S.ensures('predicate', bool(a.intersect_p(r)) == (best is not None))
    S.ensures('predicate leaves the ray', r.maxt == m0)
    i = S.mod(I).Intersection()
    S.ensures('hit exactly when some primitive is', bool(a.intersect(r, i)) == (best is not None))
    if best is None:
        S.ensures('nothing changes', r.maxt == m0 and i.dg is None)
    else:
        S.ensures('the closest', S.eq(r.maxt, best))
        r.maxt = m0
        S.ensures('its record', all(getattr(i, f)[0] == f and getattr(i, f)[1] is i.dg[1] for f in FIELDS) and S.truth(S.eq(i.dg[1].hit(r), best)))


@contract(P, [M + ':SimpleAggregate.intersect', M + ':SimpleAggregate._copy_isect'], shards=1, **O)
def list_closest(S):
    """a list of any length reports the closest hit with its whole record; without one nothing changes"""
    m = S.mod(M)
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 6))
        return compare(S, m.SimpleAggregate(prims, False), prims)
    w = World(S)
    a = m.SimpleAggregate.__new__(m.SimpleAggregate)
    a.primitives, a.bounds = w.prims, w.box()
    isect, blank = S.mod(I).Intersection(), S.mod(I).Intersection()
    st = {}

    def havoc(loc, i):
        hit = w.arbitrary(isect, blank)
        S.requires(S.Implies(S.lt(w.w, i), w.answered(isect)))
        out = {}
        for x, kind in kinds.items():
            if kind == 'flag':
                out[x] = hit
            elif kind == 'nearest':
                out[x] = w.ray.maxt if hit else S.inf
            elif kind == 'count':
                out[x] = S.fresh_int(x)
                S.requires(S.lt(0, out[x]) if hit else S.eq(0, out[x]))
        return out
    kinds = {}

    def check(loc, i):
        S.ensures('record', w.state(isect, w.ray.maxt), 'inv')
        S.ensures('primitives so far', S.Implies(S.lt(w.w, i), w.answered(isect)), 'inv')
        got = w.filled(isect) is not None
        for x in cut.carried:
            v = loc[x]
            if x not in kinds:
                # what a variable is for is told by its value before the loop
                kinds[x] = 'flag' if isinstance(v, bool) else 'count' if isinstance(v, int) else 'nearest' if isinstance(v, float) else None
            if kinds[x] == 'flag':
                S.ensures('hit so far', bool(v) == got, 'inv')
            elif kinds[x] == 'nearest':
                S.ensures('nearest so far', S.eq(v, w.ray.maxt) if got else v == S.inf, 'inv')
            elif kinds[x] == 'count':
                S.ensures('hits so far', S.lt(0, v) if got else S.eq(0, v), 'inv')
    cut = SIMPLE['intersect'][0]
    cut.use(S, havoc, check)
    res = a.intersect(w.ray, isect)
    S.ensures('no closer hit is missed', w.answered(isect))
    S.ensures('record', w.state(isect, w.ray.maxt))
    S.ensures('result', bool(S.truth(res)) == (w.filled(isect) is not None))


@contract(P, M + ':SimpleAggregate.intersect_p', **O)
def list_any(S):
    """true exactly when some primitive of the list is hit; the ray is unchanged"""
    m = S.mod(M)
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 6))
        return compare(S, m.SimpleAggregate(prims, False), prims)
    w = World(S)
    a = m.SimpleAggregate.__new__(m.SimpleAggregate)
    a.primitives, a.bounds = w.prims, w.box()
    hits = []

    def havoc(loc, i):
        S.requires(S.Implies(S.lt(w.w, i), S.Not(w.relevant)))
        return {}
    SIMPLE['intersect_p'][0].use(S, havoc, lambda loc, i: S.ensures('none so far', S.Implies(S.lt(w.w, i), S.Not(w.relevant)), 'inv'))
    prim = w.prim

    def item(k):
        p = prim(k)
        f = p.intersect_p
        p.intersect_p = lambda r: f(r) and (hits.append(k) or True)
        return p
    a.primitives = S.list(w.N, item)
    res = a.intersect_p(w.ray)
    S.ensures('a hit is found', S.Implies(w.relevant, S.truth(res)))
    S.ensures('a hit found is one', S.Implies(S.truth(res), len(hits) > 0))
    S.ensures('ray unchanged', S.eq(w.ray.maxt, w.maxt))


@contract(P, [M + ':SimpleAggregate.__init__', M + ':SimpleAggregate.world_bound', M + ':SimpleAggregate.can_intersect'], **O)
def list_bound(S):
    """the primitives are the refined parts of those given, or these themselves; the bound contains each and is contained in every box that does"""
    m, g = S.mod(M), S.mod('pytracer.geometry')
    now = S.choice('refine', [False, True])
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 6))
        for p in prims:
            p.full_refine = lambda out, p=p: out.extend([p, p])
        a = m.SimpleAggregate(prims, now)
        want = [q for p in prims for q in (p, p)] if now else prims
        S.ensures('parts', len(a.primitives) == len(want) and all(x is y for x, y in zip(a.primitives, want)))
        b = a.world_bound()
        S.ensures('bound', all(b.pMin[k] == min(p.lo[k] for p in prims) and b.pMax[k] == max(p.hi[k] for p in prims) for k in range(3)) and a.can_intersect() is True)
        return
    N = S.int('N', 1)
    lo, hi = [S.array('lo%d' % k, N) for k in range(3)], [S.array('hi%d' % k, N) for k in range(3)]

    def bound(k):
        b = g.BBox()
        b.pMin, b.pMax = g.Point(*[x.at(k) for x in lo]), g.Point(*[x.at(k) for x in hi])
        for i in range(3):
            S.requires(S.le(lo[i].at(k), hi[i].at(k)))
        return b
    parts = S.list(N, lambda k: Rec(k=k, world_bound=lambda: bound(k)))
    given = S.list(S.int('given', 0), lambda k: Rec(full_refine=lambda out: S.ensures('refined into the list', out is got['list'], 'requires')))
    got = {}
    w = S.int('w', 0)
    S.requires(S.lt(w, N))
    big = [S.real('big%d' % k) for k in range(6)]

    def within(k):
        return S.And(*[S.And(S.le(big[i], lo[i].at(k)), S.le(hi[i].at(k), big[3 + i])) for i in range(3)])

    def refine_havoc(loc, i):
        got['list'] = loc['self'].primitives
        return {}

    def refine_done(loc, i):
        if 'list' not in got:
            S.ensures('starts empty', loc['self'].primitives == [], 'inv')
    if now:
        SIMPLE['__init__'][0].use(S, refine_havoc, refine_done)
    st = {}
    bb = S.bool('all in a box')

    def havoc(loc, i):
        b = loc['self'].bounds
        st['i'] = i
        if S.decide(S.eq(i, 0)):
            return {}
        for k in range(3):
            b.pMin[k], b.pMax[k] = S.fresh('bl'), S.fresh('bh')
        S.requires(inv(b, i))
        return {}

    def inv(b, i):
        return S.And(S.Implies(S.lt(w, i), S.And(*[S.And(S.le(b.pMin[k], lo[k].at(w)), S.le(hi[k].at(w), b.pMax[k])) for k in range(3)])),
                     S.Implies(bb, S.And(*[S.And(S.le(big[k], b.pMin[k]), S.le(b.pMax[k], big[3 + k])) for k in range(3)])))

    def check(loc, i):
        b = loc['self'].bounds
        if 'i' not in st:
            S.ensures('starts empty', all(b.pMin[k] == S.inf and b.pMax[k] == -S.inf for k in range(3)), 'inv')
            return
        if bb:
            S.requires(within(i - 1))
        S.ensures('bound so far', inv(b, i), 'inv')
    SIMPLE['__init__'][1].use(S, havoc, check)
    if now:
        # the refined list is arbitrary (contract full_refine)
        cut = SIMPLE['__init__'][0]
        enter = cut.havoc

        def replace(loc, i):
            out = enter(loc, i)
            loc['self'].primitives = parts
            got['list'] = parts
            return out
        cut.havoc = replace
    a = m.SimpleAggregate(given if now else parts, now)
    S.ensures('primitives', a.primitives is parts and a.can_intersect() is True)
    b = a.world_bound()
    S.ensures('contains each', S.And(*[S.And(S.le(b.pMin[k], lo[k].at(w)), S.le(hi[k].at(w), b.pMax[k])) for k in range(3)]))
    if bb:
        S.ensures('smallest', S.And(*[S.And(S.le(big[k], b.pMin[k]), S.le(b.pMax[k], big[3 + k])) for k in range(3)]))


# ------------------------------------------------------------------ records and scene
@contract(P, [I + ':Intersection.get_bsdf', I + ':Intersection.get_bssrdf', I + ':Intersection.le', I + ':Intersection.__init__'], **O)
def record(S):
    """scattering functions are those of the primitive at the point with its differentials computed for the ray; light is emitted by area lights only"""
    m = S.mod(I)
    log = []
    dg = Rec(p='p', nn='nn', compute_differential=lambda r: log.append(r))
    lit = S.choice('light', [True, False])
    light = Rec(l=lambda p, n, w: ('l', p, n, w)) if lit else None

    def made(kind):
        return lambda d, o: (kind, d, o, list(log))
    pr = Rec(get_bsdf=made('bsdf'), get_bssrdf=made('bssrdf'), get_area_light=lambda: light)
    i = m.Intersection(dg, pr, 'w2o', 'o2w', 4, 5, 6.)
    S.ensures('fields', (i.dg, i.primitive, i.w2o, i.o2w, i.shapeId, i.primitiveId, i.rEps) == (dg, pr, 'w2o', 'o2w', 4, 5, 6.))
    S.ensures('bsdf', i.get_bsdf('ray') == ('bsdf', dg, 'o2w', ['ray']))
    S.ensures('bssrdf', i.get_bssrdf('ray2') == ('bssrdf', dg, 'o2w', ['ray', 'ray2']))
    e = i.le('w')
    if lit:
        S.ensures('emitted at the point towards w', e == ('l', 'p', 'nn', 'w'))
    else:
        S.ensures('no light', e.is_black())


@contract(P, ['pytracer.scene.scene:Scene.__init__', 'pytracer.scene.scene:Scene.intersect', 'pytracer.scene.scene:Scene.intersect_p', 'pytracer.scene.scene:Scene.world_bound'], **O)
def scene(S):
    """the scene passes rays to its aggregate; its bound is that of aggregate and volume together, and theirs stay as they are"""
    from contracts.c02_bbox import mkbox
    m = S.mod('pytracer.scene.scene')
    a, v = mkbox(S, 'a', empty=False), mkbox(S, 'v', empty=False)
    vol = S.choice('volume', [True, False])
    hit = S.choice('hit', [True, False])
    log = []
    agg = Rec(world_bound=lambda: a, intersect=lambda r, i: log.append((r, i)) or hit, intersect_p=lambda r: log.append(r) or hit)
    sa, sv = S.snap(a), S.snap(v)
    s = m.Scene(agg, ['lights'], Rec(world_bound=lambda: v) if vol else None)
    b = s.world_bound()
    for k in range(3):
        S.ensures('bound', S.And(S.eq(b.pMin[k], S.min(a.pMin[k], v.pMin[k]) if vol else a.pMin[k]), S.eq(b.pMax[k], S.max(a.pMax[k], v.pMax[k]) if vol else a.pMax[k])))
    S.ensures('bounds of the parts unchanged', S.And(S.unchanged(a, sa), S.unchanged(v, sv)))
    S.ensures('hits are those of the aggregate', s.intersect('ray', 'isect') is hit and s.intersect_p('shadow') is hit and log == [('ray', 'isect'), 'shadow'])
    S.ensures('lights', s.lights == ['lights'] and s.aggregate is agg)


# ------------------------------------------------------------------ voxels
class Lock(object):
    def __init__(self):
        self.held, self.log = False, []

    def acquire(self, *a):
        assert not self.held
        self.held = True
        self.log.append('acquire')
        return True

    def release(self):
        assert self.held
        self.held = False
        self.log.append('release')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


@contract(P, [M + ':Voxel.intersect', M + ':Voxel.intersect_p', M + ':Voxel.__init__', M + ':Voxel.add_primitive'], **O)
def voxel(S):
    """refined voxels: a voxel of any number of primitives reports the closest hit; the predicate agrees; the lock is free afterwards"""
    m = S.mod(M)
    which = S.choice('which', ['closest', 'any'])
    lock = Lock()
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 5))
        split = S.int('split', 0, len(prims))
        given = prims[:split]
        v = m.Voxel(given)
        for p in prims[split:]:
            v.add_primitive(p)
        S.ensures('storage of its own', len(given) == split and v.primitives == prims)
        a = Rec(intersect=lambda r, i: v.intersect(r, i, lock), intersect_p=lambda r: v.intersect_p(r, lock))
        compare(S, a, prims)
        S.ensures('lock free', not lock.held)
        return
    w = World(S)
    v = m.Voxel.__new__(m.Voxel)
    v.primitives = w.prims
    v.all_can_intersect = True
    isect, blank = S.mod(I).Intersection(), S.mod(I).Intersection()
    if which == 'closest':
        cut = VOXEL['intersect'][1]

        def havoc(loc, i):
            hit = w.arbitrary(isect, blank)
            S.requires(S.Implies(S.lt(w.w, i), w.answered(isect)))
            return {x: hit for x in ('any_hit',) if x in cut.names}

        def check(loc, i):
            S.ensures('record', w.state(isect, w.ray.maxt), 'inv')
            S.ensures('primitives so far', S.Implies(S.lt(w.w, i), w.answered(isect)), 'inv')
            if 'any_hit' in loc:
                S.ensures('hit so far', bool(loc['any_hit']) == (w.filled(isect) is not None), 'inv')
        cut.use(S, havoc, check)
        res = v.intersect(w.ray, isect, lock)
        S.ensures('no closer hit is missed', w.answered(isect))
        S.ensures('record', w.state(isect, w.ray.maxt))
        S.ensures('result', bool(S.truth(res)) == (w.filled(isect) is not None))
    else:
        hits = []

        def havoc(loc, i):
            S.requires(S.Implies(S.lt(w.w, i), S.Not(w.relevant)))
            return {}
        VOXEL['intersect_p'][1].use(S, havoc, lambda loc, i: S.ensures('none so far', S.Implies(S.lt(w.w, i), S.Not(w.relevant)), 'inv'))
        prim = w.prim

        def item(k):
            p = prim(k)
            f = p.intersect_p
            p.intersect_p = lambda r: f(r) and (hits.append(k) or True)
            return p
        v.primitives = S.list(w.N, item)
        res = v.intersect_p(w.ray, lock)
        S.ensures('a hit is found', S.Implies(w.relevant, S.truth(res)))
        S.ensures('a hit found is one', S.Implies(S.truth(res), len(hits) > 0))
        S.ensures('ray unchanged', S.eq(w.ray.maxt, w.maxt))
    S.ensures('lock free', not lock.held)


@contract(P, [M + ':Voxel.intersect', M + ':Voxel.intersect_p'], **O)
def voxel_refines(S):
    """on first use every primitive that cannot be intersected is replaced by its parts, under the lock, once"""
    m = S.mod(M)
    which = S.choice('which', ['closest', 'any'])
    lock = Lock()
    n = S.choice('n', [1, 2, 3])
    kinds = [S.choice('k%d' % i, ['ready', 'one', 'many']) for i in range(n)]
    made, asked = [], []

    def grid(parts, now):
        made.append((list(parts), now))
        return ready('grid')

    def ready(name):
        p = Rec(name=name, can_intersect=lambda: True)
        p.intersect = p.intersect_p = lambda *a: asked.append(p) and False
        return p

    def coarse(kind):
        p = Rec(can_intersect=lambda: False, parts=[ready('part') for _ in range(1 if kind == 'one' else 2)], times=0)

        def full(out):
            S.ensures('under the lock', lock.held, 'requires')
            p.times += 1
            out.extend(p.parts)
        p.full_refine = full
        return p
    prims = [ready('ready') if k == 'ready' else coarse(k) for k in kinds]
    old = m.GridAccel
    m.GridAccel = grid
    try:
        v = m.Voxel(prims)
        for turn in range(2):
            if which == 'closest':
                res = v.intersect('ray', 'isect', lock)
            else:
                res = v.intersect_p('ray', lock)
            S.ensures('no hit', not res)
            S.ensures('lock free', not lock.held)
    finally:
        m.GridAccel = old
    S.ensures('every primitive is asked in turn', len(asked) == 2 * n)
    g = 0
    for p, q, k in zip(prims, asked[:n], kinds):
        if k == 'ready':
            S.ensures('kept', q is p)
        elif k == 'one':
            S.ensures('its part', q is p.parts[0] and p.times == 1)
        else:
            S.ensures('a grid of its parts', q.name == 'grid' and p.times == 1 and made[g][0] == p.parts)
            g += 1
    S.ensures('grids only for several parts', len(made) == g)


# ------------------------------------------------------------------ surface geometry of a hit
D = 'pytracer.geometry.diffgeom'


@contract(P, D + ':DifferentialGeometry.__init__', cancel=True, **O)
def surface(S):
    """a hit keeps copies of point, tangents and normal derivatives; the normal is the unit normal of the tangents, reversed for reversed or mirrored shapes, not both"""
    g = S.mod('pytracer.geometry')
    p, a, b, e, f = S.point('p'), S.vec('a'), S.vec('b'), S.normal('e'), S.normal('f')
    c = S.cross(a, b)
    q = S.dot(c, c)
    S.requires(S.lt(0, q))
    if S.symbolic:
        S.requires(S.And(S.lt(0, S.sqrt(q)), S.eq(S.sqrt(q) * S.sqrt(q), q)))
    sh = S.choice('shape', [None, (False, False), (True, False), (False, True), (True, True)])
    shape_ = None if sh is None else Rec(ro=sh[0], transform_swaps_handedness=sh[1])
    u, v = S.real('u'), S.real('v')
    d = g.DifferentialGeometry(p, a, b, e, f, u, v, shape_)
    flip = -1 if sh is not None and sh[0] != sh[1] else 1
    S.ensures('normal', S.And(*[S.eq(d.nn[k] * S.sqrt(q), flip * c[k]) for k in range(3)]))
    S.ensures('kind', type(d.nn) is g.Normal)
    S.ensures('fields', S.And(S.veq(d.p, p), S.veq(d.dpdu, a), S.veq(d.dpdv, b), S.veq(d.dndu, e), S.veq(d.dndv, f), S.eq(d.u, u), S.eq(d.v, v), d.shape is shape_))
    S.ensures('no differentials yet', S.And(*[S.eq(x, 0) for x in (d.dudx, d.dvdx, d.dudy, d.dvdy) + tuple(d.dpdx) + tuple(d.dpdy)]))
    was = [x.copy() for x in (p, a, b, e, f)]
    for x in (d.p, d.dpdu, d.dpdv, d.dndu, d.dndv):
        x[0] = x[0] + 1
    S.ensures('storage of its own', S.And(*[S.veq(x, y) for x, y in zip((p, a, b, e, f), was)]))


@contract(P, D + ':DifferentialGeometry.compute_differential', weight=2, shards=2, **O)
def differentials(S):
    """the offset rays meet the tangent plane at p + dpdx and p + dpdy, which are the tangents times the changes of u and v"""
    g = S.mod('pytracer.geometry')
    a, b = S.vec('a', -2, 2) if not S.symbolic else S.vec('a'), S.vec('b', -2, 2) if not S.symbolic else S.vec('b')
    d = g.DifferentialGeometry.__new__(g.DifferentialGeometry)
    if S.symbolic:
        n = S.normal('n')
        S.requires(S.And(S.eq(S.dot(n, a), 0), S.eq(S.dot(n, b), 0), S.Or(*[S.ne(n[k], 0) for k in range(3)])))
        c = S.cross(a, b)
        m = S.real('m')
        S.requires(S.And(S.ne(m, 0), *[S.eq(c[k], m * n[k]) for k in range(3)]))
    else:
        c = g.Vector(*S.cross(a, b))
        S.requires(c.length() > .1)
        n = g.Normal.from_arr(g.normalize(c))
    p = S.point('p')
    d.p, d.nn, d.dpdu, d.dpdv = p, n, a, b
    r = g.RayDifferential(S.point('o'), S.vec('d'))
    has = S.choice('differentials', [True, False])
    r.has_differentials = has
    r.rxOrigin, r.ryOrigin, r.rxDirection, r.ryDirection = S.point('ox'), S.point('oy'), S.vec('dx'), S.vec('dy')
    for w in (r.rxDirection, r.ryDirection):
        S.requires(S.ne(S.dot(n, w), 0) if S.symbolic else abs(S.dot(n, w)) > .05)
    d.compute_differential(r)
    if not has:
        S.ensures('none', S.And(*[S.eq(x, 0) for x in (d.dudx, d.dvdx, d.dudy, d.dvdy) + tuple(d.dpdx) + tuple(d.dpdy)]))
        return
    for o, w, dp, du, dv in ((r.rxOrigin, r.rxDirection, d.dpdx, d.dudx, d.dvdx), (r.ryOrigin, r.ryDirection, d.dpdy, d.dudy, d.dvdy)):
        S.ensures('in the tangent plane', S.eq(S.dot(n, dp), 0))
        S.ensures('on the offset ray', S.And(*[S.eq(x, 0) for x in S.cross([p[k] + dp[k] - o[k] for k in range(3)], w)]))
        S.ensures('change of texture coordinates', S.And(*[S.eq(du * a[k] + dv * b[k], dp[k]) for k in range(3)]))
