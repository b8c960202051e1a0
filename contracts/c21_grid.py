"""C21: the uniform grid accelerator: cells, placement of primitives, and the walk along a ray."""
from pyvc import api
from pyvc.api import contract
from contracts.c20_primitives import Rec, World, FIELDS, sampled, compare

M = 'pytracer.aggregate.aggregate'
Q = M + ':GridAccel'
I = 'pytracer.aggregate.intersection'
P = 'C21'
O = dict(div='assume', tol=1e-6, cancel=True)


class OnlyWhile(api.WhileCut):
    """cuts the while loop of a function, wherever it stands"""

    def enter(self, names, loc, it):
        return {} if it is not None else api.WhileCut.enter(self, names, loc, it)

    def iterate(self, it, frame):
        if it is not None or self.S is None:
            return iter(it) if it is not None else api.WhileCut.iterate(self, it, frame)
        return api.WhileCut.iterate(self, it, frame)


WALK = {}
for _n in ('intersect', 'intersect_p'):
    _c = WALK[_n] = OnlyWhile()
    for _k in range(8):
        api.CUTS.setdefault((M, 'GridAccel.' + _n), {}).setdefault(_k, _c)


class Grid(object):
    """a grid: bounds, number of cells per axis, their widths (nil along a flat axis, which has one cell)"""

    def __init__(self, S):
        g, m = S.mod('pytracer.geometry'), S.mod(M)
        self.S = S
        self.lo, self.hi = [S.real('lo%d' % k) for k in range(3)], [S.real('hi%d' % k) for k in range(3)]
        self.n, self.w = [S.int('n%d' % k, 1, 64) for k in range(3)], [S.real('w%d' % k) for k in range(3)]
        a = self.a = m.GridAccel.__new__(m.GridAccel)
        a.bounds = g.BBox()
        a.bounds.pMin, a.bounds.pMax = g.Point(*self.lo), g.Point(*self.hi)
        a.n_voxels = m.np.full(3, 0.)
        a.width, a.invWidth = g.Vector(), g.Vector()
        for k in range(3):
            S.requires(S.And(S.le(0, self.w[k]), S.eq(self.lo[k] + self.n[k] * self.w[k], self.hi[k]), S.Implies(S.eq(self.w[k], 0), S.eq(self.n[k], 1))))
            a.n_voxels[k], a.width[k] = self.n[k], self.w[k]
            inv = S.fresh('inv')
            S.requires(S.If(S.eq(self.w[k], 0), inv, inv * self.w[k] - 1) == 0)
            a.invWidth[k] = inv

    def plane(self, c, k):
        return self.lo[k] + c * self.w[k]

    def is_cell(self, c, x, k):
        """c is the number of the cell of coordinate x, those beyond the ends belonging to the outer cells"""
        S = self.S
        return S.And(S.le(0, c), S.lt(c, self.n[k]), S.Or(S.eq(c, 0), S.le(self.plane(c, k), x)), S.Or(S.eq(c, self.n[k] - 1), S.lt(x, self.plane(c + 1, k))))


@contract(P, [Q + '.pos2voxel', Q + '.voxel2pos'], **O)
def cells(S):
    """a coordinate belongs to the cell between whose planes it lies, one beyond the ends to the outermost cell"""
    m = S.mod(M)
    k = S.choice('axis', [0, 1, 2])
    x = S.point('x')
    if not S.symbolic:
        prims = sampled(S, S.int('m', 1, 6))
        S.requires(any(p.hi[i] > p.lo[i] for p in prims for i in range(3)) or len({tuple(p.lo) for p in prims}) > 1)
        a = m.GridAccel(prims, False)
        c = a.pos2voxel(x, k)
        S.ensures('cell', 0 <= c < a.n_voxels[k] and (c == 0 or a.voxel2pos(c, k) <= x[k] + 1e-9) and (c == a.n_voxels[k] - 1 or x[k] < a.voxel2pos(c + 1, k) + 1e-9))
        return
    g = Grid(S)
    c = g.a.pos2voxel(x, k)
    S.ensures('cell', g.is_cell(c, x[k], k))
    q = S.int('q')
    S.ensures('lower plane of a cell', S.eq(g.a.voxel2pos(q, k), g.plane(q, k)))


@contract(P, Q + '.offset', **O)
def offsets(S):
    """the place of a cell in the table of voxels is its mixed-radix number (so that different cells have different places), within the table"""
    m = S.mod(M)
    if S.symbolic:
        g = Grid(S)
        a, n = g.a, g.n
    else:
        n = [S.int('n%d' % k, 1, 64) for k in range(3)]
        a = m.GridAccel.__new__(m.GridAccel)
        a.n_voxels = m.np.array([float(x) for x in n])
    c = [S.int('c%d' % k, 0, 63) for k in range(3)]
    d = [S.int('d%d' % k, 0, 63) for k in range(3)]
    for k in range(3):
        S.requires(S.And(S.lt(c[k], n[k]), S.lt(d[k], n[k])))
    o, p = a.offset(*c), a.offset(*d)
    S.ensures('place', S.eq(o, c[0] + n[0] * (c[1] + n[1] * c[2])))
    S.ensures('within the table', S.And(S.le(0, o), S.lt(o, n[0] * n[1] * n[2])))
    if not S.symbolic:
        S.ensures('different', o != p or c == d)


# ------------------------------------------------------------------ the walk
class Walk(object):
    """a ray with a witness: a primitive, listed in every closed cell that contains the point where the ray hits it (contract fill)"""

    def __init__(self, S, dirs):
        gm = S.mod('pytracer.geometry')
        self.S = S
        self.grid = g = Grid(S)
        self.world = w = World(S)
        d = []
        for k, s in enumerate(dirs):
            if s == 0:
                d.append(S.num(0))
            else:
                x = S.real('d%d' % k)
                S.requires(S.lt(0, x * s))
                d.append(x)
        self.d = d
        r = w.ray = gm.Ray(S.point('o'), gm.Vector(*d), w.mint, w.maxt)
        self.p = [r.o[k] + w.T.at(w.w) * d[k] for k in range(3)]
        S.requires(S.Implies(w.relevant, S.And(*[S.And(S.le(g.lo[k], self.p[k]), S.le(self.p[k], g.hi[k])) for k in range(3)])))
        self.isect, self.blank = S.mod(I).Intersection(), S.mod(I).Intersection()
        self.hits = []
        a = g.a
        a.voxels, a.lock = self, 'lock'
        S.stub('pytracer.geometry:BBox.intersect_p', lambda b, r: self.box_test(b, r))
        S.stub('pytracer.geometry:BBox.inside', lambda b, p: S.truth(S.And(*[S.And(S.le(b.pMin[k], p[k]), S.le(p[k], b.pMax[k])) for k in range(3)])))
        S.stub(Q + '.pos2voxel', lambda a, p, axis: self.pos2voxel(a, p, axis))
        S.stub(Q + '.offset', lambda a, x, y, z: self.offset(a, x, y, z))

    def box_test(self, b, r):
        """contract C03: the interval in the box"""
        S, w, g = self.S, self.world, self.grid
        S.ensures('bound is tested with the ray', r is w.ray and b is g.a.bounds, 'requires')
        if not S.decide(S.fresh_bool('box')):
            S.requires(S.Not(w.relevant))
            return [False, 0., 0.]
        t0, t1 = S.fresh('t0'), S.fresh('t1')
        S.requires(S.And(S.le(w.mint, t0), S.le(t0, t1), S.le(t1, w.maxt), S.Implies(w.relevant, S.And(S.le(t0, w.T.at(w.w)), S.le(w.T.at(w.w), t1)))))
        for k in range(3):
            x = r.o[k] + t0 * self.d[k]
            S.requires(S.And(S.le(g.lo[k], x), S.le(x, g.hi[k])))
        return [True, t0, t1]

    def pos2voxel(self, a, p, axis):
        """contract cells"""
        S = self.S
        c = S.fresh_int('c')
        S.requires(self.grid.is_cell(c, p[axis], axis))
        return c

    def offset(self, a, x, y, z):
        """contract offsets"""
        S = self.S
        for c, n in zip((x, y, z), self.grid.n):
            S.ensures('a cell of the grid', S.And(S.le(0, c), S.lt(c, n)), 'requires')
        return (x, y, z)

    def here(self, cell):
        S, g = self.S, self.grid
        return S.And(self.world.relevant, *[S.And(S.le(g.plane(cell[k], k), self.p[k]), S.le(self.p[k], g.plane(cell[k] + 1, k))) for k in range(3)])

    def __vlen__(self):
        return self.grid.n[0] * self.grid.n[1] * self.grid.n[2]

    def __getitem__(self, cell):
        S, w = self.S, self.world
        here = self.here(cell)
        if S.decide(S.fresh_bool('empty')):
            S.requires(S.Not(here))
            return None

        def intersect(ray, isect, lock):
            """contract voxel of C20"""
            S.ensures('voxels are given the ray, the record and the lock', ray is w.ray and isect is self.isect and lock == 'lock', 'requires')
            was, had = ray.maxt, w.filled(isect)
            if S.decide(S.fresh_bool('found')):
                q = S.fresh_int('q')
                w.fill(isect, q)
                ray.maxt = S.fresh('maxt')
                S.requires(S.And(w.state(isect, ray.maxt), S.le(ray.maxt, was)))
                S.requires(S.Implies(here, w.answered(isect)))
                return True
            S.requires(S.Implies(here, S.And(had is not None, S.lt(was, w.T.at(w.w)))))
            return False

        def intersect_p(ray, lock):
            S.ensures('voxels are given the ray and the lock', ray is w.ray and lock == 'lock', 'requires')
            if S.decide(S.fresh_bool('found')):
                self.hits.append(cell)
                return True
            S.requires(S.Not(here))
            return False
        return Rec(intersect=intersect, intersect_p=intersect_p)


def walked(S, name, closest):
    m = S.mod(M)
    signs = S.choice('signs', [(a, b, c) for a in (1, -1, 0) for b in (1, -1, 0) for c in (1, -1, 0) if a or b or c])
    x = Walk(S, signs)
    g, w, a = x.grid, x.world, x.grid.a
    r = w.ray
    st = {}

    def done(found):
        return w.answered(x.isect) if closest else S.Or(S.Not(w.relevant), found)

    def near(k, c):
        """the hit lies beyond the plane through which the ray enters cell c along axis k"""
        if signs[k] > 0:
            return S.le(g.plane(c, k), x.p[k])
        if signs[k] < 0:
            return S.le(x.p[k], g.plane(c + 1, k))
        return S.And(S.le(g.plane(c, k), x.p[k]), S.le(x.p[k], g.plane(c + 1, k)))

    def crossing(k, c, t):
        """t is the parameter at which the ray leaves cell c along axis k"""
        if signs[k] == 0:
            return isinstance(t, float) and t == S.inf
        return S.eq(g.plane(c + 1 if signs[k] > 0 else c, k), r.o[k] + t * x.d[k])

    def havoc(loc, i):
        pos, nc = loc['pos'], loc['next_crossing']
        for k in range(3):
            pos[k] = S.fresh_int('pos')
            if signs[k]:
                nc[k] = S.fresh('nc')
            S.requires(S.And(S.le(0, pos[k]), S.lt(pos[k], g.n[k]), crossing(k, pos[k], nc[k])))
        st['found'] = found = False
        if closest:
            found = w.arbitrary(x.isect, x.blank)
        elif S.decide(S.fresh_bool('found')):
            found = True
            x.hits.append(0)
        S.requires(S.Or(done(found), S.And(*[near(k, pos[k]) for k in range(3)])))
        st['cut'] = True
        return {n: found for n in ('any_hit',) if n in cut.names}

    def check(loc, i):
        pos, nc = loc['pos'], loc['next_crossing']
        found = S.truth(loc['any_hit']) if 'any_hit' in loc else False
        for k in range(3):
            S.ensures('the walk stays in the grid', S.And(S.le(0, pos[k]), S.lt(pos[k], g.n[k])), 'inv')
            S.ensures('parameter at which the cell is left', crossing(k, pos[k], nc[k]), 'inv')
        if closest:
            S.ensures('record', S.And(w.state(x.isect, r.maxt), S.Iff(found, w.filled(x.isect) is not None)), 'inv')
        else:
            S.ensures('hits', S.Iff(found, len(x.hits) > 0), 'inv')
        for k in range(3):
            S.ensures('the hit is ahead or answered', S.Or(done(found), near(k, pos[k])), 'inv')
    cut = WALK[name]
    cut.use(S, havoc, check)
    return x, cut, signs


@contract(P, Q + '.intersect', shards=4, weight=4, time=4, **dict(O, div='ieee', feas_ms=0))
def closest(S):
    """for any grid, ray direction and primitives: no hit closer than the record is missed, and the record is that of a primitive hit"""
    m = S.mod(M)
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 8))
        S.requires(len({tuple(p.lo) for p in prims}) > 1 or any(x != y for p in prims for x, y in zip(p.lo, p.hi)))
        return compare(S, m.GridAccel(prims, False), prims)
    x, cut, signs = walked(S, 'intersect', True)
    res = x.grid.a.intersect(x.world.ray, x.isect)
    S.ensures('no closer hit is missed', x.world.answered(x.isect))
    S.ensures('record', x.world.state(x.isect, x.world.ray.maxt))
    S.ensures('result', S.Iff(S.truth(res), x.world.filled(x.isect) is not None))


@contract(P, Q + '.intersect_p', shards=4, weight=4, time=4, **dict(O, div='ieee', feas_ms=0))
def any_hit(S):
    """for any grid, ray direction and primitives: true exactly when some primitive is hit; the ray is unchanged"""
    m = S.mod(M)
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 8))
        S.requires(len({tuple(p.lo) for p in prims}) > 1 or any(x != y for p in prims for x, y in zip(p.lo, p.hi)))
        return compare(S, m.GridAccel(prims, False), prims)
    x, cut, signs = walked(S, 'intersect_p', False)
    res = x.grid.a.intersect_p(x.world.ray)
    S.ensures('a hit is found', S.Implies(x.world.relevant, S.truth(res)))
    S.ensures('a hit found is one', S.Implies(S.truth(res), len(x.hits) > 0))
    S.ensures('ray unchanged', S.eq(x.world.ray.maxt, x.world.maxt))


# ------------------------------------------------------------------ placement
class Dyn(api.RangeCut):
    """loops of unknown extent, cut at the invariant the contract chooses when the loop is entered"""
    choose = None

    def enter(self, names, loc, it):
        self.plain = self.S is None or it is None or not (hasattr(it, '__vlen__') or hasattr(it, 'start')) or isinstance(it, range)
        if self.plain:
            return {}
        self.havoc, self.check = self.choose(loc, it)
        return api.RangeCut.enter(self, names, loc, it)

    def iterate(self, it, frame):
        return iter(it) if self.plain else api.RangeCut.iterate(self, it, frame)


INIT = [api.cut(M, 'GridAccel.__init__', k, Dyn) for k in range(12)]


class Table(object):
    """the table of voxels, seen at the cell of the witness: whether it is taken, and whether it holds the witness"""

    def __init__(self, S, n, at, w):
        self.S, self.n, self.at, self.w = S, n, at, w
        self.taken = self.holds = False
        self.other = {}

    def mine(self, cell):
        S = self.S
        for c, n in zip(cell, self.n):
            S.ensures('a cell of the grid', S.And(S.le(0, c), S.lt(c, n)), 'requires')
        return S.decide(S.And(*[S.eq(x, y) for x, y in zip(cell, self.at)]))

    def __getitem__(self, cell):
        S = self.S
        if self.mine(cell):
            return Rec(add_primitive=self.add) if S.decide(self.taken) else None
        if str(cell) not in self.other:
            self.other[str(cell)] = S.decide(S.fresh_bool('other'))
        return Rec(add_primitive=lambda p: None) if self.other[str(cell)] else None

    def add(self, p):
        S = self.S
        self.holds = S.Or(self.holds, S.eq(p.k, self.w))

    def __setitem__(self, cell, v):
        S = self.S
        if self.mine(cell):
            self.taken, self.holds = True, S.Or(*[S.eq(p.k, self.w) for p in v.prims])
        else:
            self.other[str(cell)] = True


@contract(P, [Q + '.__init__', Q + '.world_bound', Q + '.can_intersect'], weight=2, shards=2, **O)
def fill(S):
    """the bound contains every primitive; the cells divide it evenly, a flat axis having one; every primitive is listed in every cell that its box touches"""
    m, gm = S.mod(M), S.mod('pytracer.geometry')
    if not S.symbolic:
        prims = sampled(S, S.int('n', 1, 8))
        lo, hi = [min(p.lo[k] for p in prims) for k in range(3)], [max(p.hi[k] for p in prims) for k in range(3)]
        S.requires(lo != hi)
        now = S.choice('refine', [True, False])
        for p in prims:
            p.full_refine = lambda out, p=p: out.append(p)
        a = m.GridAccel(prims, now)
        b = a.world_bound()
        S.ensures('bound', all(b.pMin[k] == lo[k] and b.pMax[k] == hi[k] for k in range(3)) and a.can_intersect() is True)
        n = [int(x) for x in a.n_voxels]
        S.ensures('cells', all(1 <= x <= 64 for x in n) and len(a.voxels) == n[0] * n[1] * n[2])
        for z in range(n[2]):
            for y in range(n[1]):
                for x in range(n[0]):
                    v = a.voxels[a.offset(x, y, z)]
                    S.ensures('listed', all((v is not None and p in v.primitives) for p in prims
                                            if all(a.voxel2pos(c, k) + 1e-9 <= p.hi[k] and p.lo[k] <= a.voxel2pos(c + 1, k) - 1e-9 for k, c in enumerate((x, y, z)))))
        return
    N = S.int('N', 1)
    lo, hi = [S.array('lo%d' % k, N) for k in range(3)], [S.array('hi%d' % k, N) for k in range(3)]

    def bound(k):
        b = gm.BBox()
        b.pMin, b.pMax = gm.Point(*[x.at(k) for x in lo]), gm.Point(*[x.at(k) for x in hi])
        for i in range(3):
            S.requires(S.le(lo[i].at(k), hi[i].at(k)))
        return b
    w = S.int('w', 0)
    S.requires(S.lt(w, N))
    bound(w)
    prims = S.list(N, lambda k: Rec(k=k, world_bound=lambda: bound(k)))
    cell = [S.int('c%d' % k, 0) for k in range(3)]
    st = {'level': [], 'bounds': 0}
    # phase 1: up to the cells; phase 2: the placement, for any cells that satisfy the postconditions of phase 1
    setup = S.choice('phase', ['cells', 'placement']) == 'cells'

    def inside(b):
        return S.And(*[S.And(S.le(b.pMin[k], lo[k].at(w)), S.le(hi[k].at(w), b.pMax[k])) for k in range(3)])

    def union(loc, it):
        b = loc['self'].bounds

        def havoc(loc, i):
            st['bounds'] = 1
            if not setup:
                for k in range(3):
                    b.pMin[k], b.pMax[k] = S.num(0), S.num(1)
                return {}
            if S.decide(S.eq(i, 0)):
                return {}
            for k in range(3):
                b.pMin[k], b.pMax[k] = S.fresh('bl'), S.fresh('bh')
                S.requires(S.le(b.pMin[k], b.pMax[k]))
            S.requires(S.Implies(S.lt(w, i), inside(b)))
            return {}

        def check(loc, i):
            if not setup:
                return
            if not st['bounds']:
                S.ensures('starts empty', all(b.pMin[k] == S.inf and b.pMax[k] == -S.inf for k in range(3)), 'inv')
                return
            S.ensures('bound so far', S.And(S.Implies(S.lt(w, i), inside(b)), *[S.le(b.pMin[k], b.pMax[k]) for k in range(3)]), 'inv')
        return havoc, check

    def listed(a, idx):
        """the witness is listed, as far as the nested loops have come"""
        t = a.voxels
        plane = lambda c, k: a.bounds.pMin[k] + c * a.width[k]
        touches = S.And(*[S.And(S.le(plane(cell[k], k), hi[k].at(w)), S.le(lo[k].at(w), plane(cell[k] + 1, k))) for k in range(3)])
        out = [S.Implies(S.And(S.lt(w, idx[0]), touches), t.holds), S.Implies(t.holds, t.taken)]
        same = [S.eq(w, idx[0]), touches]
        for i, k in zip(idx[1:], (2, 1, 0)):
            out.append(S.Implies(S.And(S.lt(cell[k], i), *same), t.holds))
            same.append(S.eq(cell[k], i))
        return S.And(*out)

    def cells_ok(a):
        for k in range(3):
            n, wd = a.n_voxels[k], a.width[k]
            S.ensures('number of cells', S.And(S.le(1, n), S.le(n, 64)))
            S.ensures('cells divide the bound', S.And(S.eq(a.bounds.pMin[k] + n * wd, a.bounds.pMax[k]), S.le(0, wd)))
            S.ensures('a flat axis has one cell', S.Implies(S.eq(wd, 0), S.eq(n, 1)))
            S.ensures('inverse width', S.If(S.eq(wd, 0), 0, a.invWidth[k] * wd - 1) == 0)
        S.ensures('size of the table', S.eq(made[0], a.n_voxels[0] * a.n_voxels[1] * a.n_voxels[2]))
        S.ensures('bound contains each', inside(a.bounds))

    def place(loc, it):
        a, depth = loc['self'], len(st['level'])
        if depth == 0:
            if setup:
                cells_ok(a)
                S.end_path()
            g = Grid(S).a
            a.n_voxels, a.width, a.invWidth, a.bounds = g.n_voxels, g.width, g.invWidth, g.bounds
            a.voxels.n = g.n_voxels
            S.requires(inside(a.bounds))
            for k in range(3):
                S.requires(S.lt(cell[k], a.n_voxels[k]))
        S.ensures('three nested loops at most', depth < 4, 'requires')

        def havoc(loc, i):
            st['level'] = st['level'][:depth] + [i]
            a.voxels.taken, a.voxels.holds = S.fresh_bool('taken'), S.fresh_bool('holds')
            S.requires(listed(a, st['level']))
            return {}

        def check(loc, i):
            S.ensures('listed so far', listed(a, st['level'][:depth] + [i]), 'inv')
        return havoc, check

    def choose(loc, it):
        if it is prims and not st['bounds']:
            return union(loc, it)
        return place(loc, it)
    for c in INIT:
        c.use(S, None, None)
        c.choose = choose
    S.stub(M + ':Voxel', lambda ps: Rec(prims=ps))
    S.stub(Q + '.offset', lambda a, x, y, z: (x, y, z))

    def pos2voxel(a, p, k):
        c = S.fresh_int('c')
        plane = lambda c: a.bounds.pMin[k] + c * a.width[k]
        S.requires(S.And(S.le(0, c), S.lt(c, a.n_voxels[k]), S.Or(S.eq(c, 0), S.le(plane(c), p[k])), S.Or(S.eq(c, a.n_voxels[k] - 1), S.lt(p[k], plane(c + 1)))))
        return c
    S.stub(Q + '.pos2voxel', pos2voxel)
    full = m.np.full

    def table(shape, v, *more, **kw):
        if v is not None:
            return full(shape, v, *more, **kw)
        made.append(shape)
        t = Table(S, st_n(), cell, w)
        return t
    made = []
    got = {}
    st_n = lambda: got['a'].n_voxels
    S.stub(M + ':np.full', table)
    a = got['a'] = m.GridAccel.__new__(m.GridAccel)
    a.__init__(prims, False)
    S.ensures('bound contains each', inside(a.world_bound()))
    S.ensures('listed in every cell touched', listed(a, [N]))
    S.ensures('intersectable', a.can_intersect() is True and a.primitives is prims)
