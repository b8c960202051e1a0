"""C04: the bounding volume hierarchy: construction, flattening, traversal.

Everything is stated for an arbitrary number of primitives.  The build data is an array of primitive numbers (ids, with the ghost inverse
pos); statements about all primitives are proved for one arbitrary primitive, the witness."""
from pyvc import api
from pyvc.api import contract

H = 'pytracer.aggregate.accelerator.bvh'
P = 'C04'
O = dict(div='assume', tol=1e-9, feas_ms=200)


class Auto(api.RangeCut):
    """cuts loops of unknown extent only"""

    def enter(self, names, loc, it):
        self.plain = isinstance(it, range)
        if self.plain or self.S is None:
            return {}
        return api.RangeCut.enter(self, names, loc, it)

    def iterate(self, it, frame):
        if self.S is None or self.plain:
            for x in it:
                yield x
            return
        for x in api.RangeCut.iterate(self, it, frame):
            yield x


PART = api.cut(H, 'BVH._partition', 0, api.WhileCut)
BUCK = api.cut(H, 'BVH._bucket_partition', 0, api.WhileCut)
SORT = [api.cut(H, 'BVH._insertion_sort', 0), api.cut(H, 'BVH._insertion_sort', 1, api.WhileCut)]
BUILD = [api.cut(H, 'BVH._recursive_build', k, Auto) for k in range(9)]
WALK = [api.cut(H, 'BVH.intersect', 0, api.WhileCut), api.cut(H, 'BVH.intersect', 1)]
SHADOW = [api.cut(H, 'BVH.intersect_p', 0, api.WhileCut), api.cut(H, 'BVH.intersect_p', 1)]
INIT = api.cut(H, 'BVH.__init__')


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def ints(S, name, n, facts=None):
    return S.array(name, n, facts=facts, sort='int')


def box(S, lo, hi):
    g = S.mod('pytracer.geometry')
    b = g.BBox()
    b.pMin, b.pMax = g.Point(*lo), g.Point(*hi)
    return b


def inside(S, b, lo, hi):
    """the box b contains the box lo..hi"""
    return S.And(*[S.And(S.le(b.pMin[k], lo[k]), S.le(hi[k], b.pMax[k])) for k in range(3)])


class Prims(object):
    """primitive number x: its bounds"""

    def __init__(self, S, n):
        self.S, self.n = S, n
        self.a = [S.array('lo%d' % k, n) for k in range(3)]
        self.b = [S.array('hi%d' % k, n) for k in range(3)]
        self.known = set()

    def lo(self, x):
        return [self.a[k].at(x) for k in range(3)]

    def hi(self, x):
        S, a, b = self.S, self.lo(x), [self.b[k].at(x) for k in range(3)]
        if str(x) not in self.known:
            self.known.add(str(x))
            for k in range(3):
                S.requires(S.le(a[k], b[k]))
        return b

    def centre(self, x):
        a, b = self.lo(x), self.hi(x)
        h = self.S.num('0.5')
        return [h * (a[k] + b[k]) for k in range(3)]


class Data(object):
    """the build data: position -> primitive number, ghost inverse pos"""

    def __init__(self, S, pr, N):
        self.S, self.pr, self.N = S, pr, N
        self.pos = ints(S, 'pos', N)
        self.ids = ints(S, 'ids', N, lambda a, j: [S.le(0, a.at(j)), S.lt(a.at(j), N), S.eq(self.pos.at(a.at(j)), j)])

    def copy(self):
        c = object.__new__(Data)
        c.__dict__.update(self.__dict__)
        c.ids, c.pos = self.ids.copy(), self.pos.copy()
        return c

    def __vlen__(self):
        return self.N

    def __getitem__(self, k):
        from pyvc.sym import bterm, ctx
        S = self.S
        ctx().definedness('index', bterm(S.And(S.le(0, k), S.lt(k, self.N))))
        x = self.ids.at(k)
        return Rec(id=x, prim_idx=x, centroid=S.mod('pytracer.geometry').Point(*self.pr.centre(x)), bounds=box(S, self.pr.lo(x), self.pr.hi(x)))

    def __setitem__(self, k, v):
        from pyvc.sym import bterm, ctx, lift
        S = self.S
        ctx().definedness('index', bterm(S.And(S.le(0, k), S.lt(k, self.N))))
        self.ids._put((k,), lift(v.id))
        self.pos._put((v.id,), lift(k))

    # -- statements relative to an earlier state d0: the segment [a, b) is permuted, the rest is as it was
    def member(self, x, a, b):
        S = self.S
        return S.And(S.le(a, self.pos.at(x)), S.lt(self.pos.at(x), b), S.eq(self.ids.at(self.pos.at(x)), x))

    def at_index(self, d0, a, b, j, ids=None, pos=None):
        S = self.S
        x = (self.ids if ids is None else ids).at(j)
        seg = S.And(S.le(a, j), S.lt(j, b))
        return S.And(S.Implies(seg, S.And(S.le(0, x), S.lt(x, self.N), S.eq((self.pos if pos is None else pos).at(x), j), S.le(a, d0.pos.at(x)), S.lt(d0.pos.at(x), b),
                                          S.eq(d0.ids.at(d0.pos.at(x)), x))),
                     S.Implies(S.Not(seg), S.And(S.eq(x, d0.ids.at(j)), S.eq((self.pos if pos is None else pos).at(x), d0.pos.at(x)))))

    def has(self, d0, a, b, w):
        S = self.S
        at, was = self.pos.at(w), d0.pos.at(w)
        found = S.eq(self.ids.at(at), w)
        return S.Implies(S.eq(d0.ids.at(was), w), S.And(S.Implies(S.And(S.le(a, was), S.lt(was, b)), S.And(S.le(a, at), S.lt(at, b), found)),
                                                        S.Implies(S.Not(S.And(S.le(a, was), S.lt(was, b))), S.And(S.eq(at, was), found))))

    def permute(self, d0, a, b, ws, more=None):
        """havoc: an arbitrary permutation of the segment; more(ids, j) states what else holds at index j"""
        S = self.S
        self.pos = ints(S, 'pos', self.N)
        p = self.pos.copy()
        self.ids = ints(S, 'ids', self.N, lambda ids, j: [self.at_index(d0, a, b, j, ids, p)] + (more(ids, j) if more else []))
        for w in ws:
            S.requires(self.has(d0, a, b, w))

    def state(self, d0, a, b, ws, name, kind='ensures'):
        S = self.S
        j = S.fresh_int('j')
        S.requires(S.And(S.le(0, j), S.lt(j, self.N)))
        S.ensures(name + ': permutes its segment only', self.at_index(d0, a, b, j), kind)
        for w in ws:
            S.ensures(name + ': loses no primitive', self.has(d0, a, b, w), kind)
        return j


def data(S, nw=1):
    N = S.int('N', 1)
    pr = Prims(S, N)
    d = Data(S, pr, N)
    a, b = S.int('start', 0), S.int('end')
    S.requires(S.And(S.le(a, b), S.le(b, N)))
    ws = [S.int('w%d' % k, 0) for k in range(nw)]
    for w in ws:
        S.requires(S.lt(w, N))
    return N, pr, d, a, b, ws


def conc_data(S, n):
    B = S.mod(H).BVH._BVHPrimitive
    g = S.mod('pytracer.geometry')
    out = []
    for i in range(n):
        lo = [S.real('l%d%d' % (i, k), -3, 3) for k in range(3)]
        out.append(B(i, g.BBox(g.Point(*lo), g.Point(*[x + S.real('e%d%d' % (i, k), 0, 1) for k, x in enumerate(lo)]))))
    return out


def same_items(S, d, was, a, b):
    S.ensures('permutes its segment only', sorted(x.prim_idx for x in d[a:b]) == sorted(x.prim_idx for x in was[a:b]) and
              d[:a] == was[:a] and d[b:] == was[b:])


@contract(P, H + ':BVH._partition', **O)
def partition(S):
    """permutes the segment so that the primitives below the plane come first, and returns how far they reach"""
    K = S.mod(H).BVH
    dim = S.choice('dim', [0, 1, 2])
    mid = S.real('mid', -3, 3) if not S.symbolic else S.real('mid')
    if not S.symbolic:
        n = S.int('n', 1, 7)
        d = conc_data(S, n)
        a = S.int('a', 0, n - 1)
        b = S.int('b', a, n)
        was = list(d)
        m = K._partition(d, a, b, mid, dim)
        same_items(S, d, was, a, b)
        S.ensures('below first', a <= m <= b and all(x.centroid[dim] < mid for x in d[a:m]) and all(not x.centroid[dim] < mid for x in d[m:b]))
        return
    N, pr, d, a, b, ws = data(S)
    d0 = d.copy()
    below = lambda x: S.lt(pr.centre(x)[dim], mid)

    def havoc(loc, t):
        i, k = S.fresh_int('i'), S.fresh_int('k')
        S.requires(S.And(S.le(a, i), S.le(i, k + 1), S.lt(k, b)))
        d.permute(d0, a, b, ws, lambda ids, j: [S.Implies(S.And(S.le(a, j), S.lt(j, i)), below(ids.at(j))),
                                                S.Implies(S.And(S.lt(k, j), S.lt(j, b)), S.Not(below(ids.at(j))))])
        return {'i': i, 'k': k}

    def check(loc, t):
        i, k = loc['i'], loc['k']
        S.ensures('scan range', S.And(S.le(a, i), S.le(i, k + 1), S.lt(k, b)), 'inv')
        j = d.state(d0, a, b, ws, 'scan', 'inv')
        S.ensures('scanned from below', S.Implies(S.And(S.le(a, j), S.lt(j, i)), below(d.ids.at(j))), 'inv')
        S.ensures('scanned from above', S.Implies(S.And(S.lt(k, j), S.lt(j, b)), S.Not(below(d.ids.at(j)))), 'inv')
    PART.use(S, havoc, check)
    PART.variant = lambda loc: loc['k'] - loc['i'] + 1
    m = K._partition(d, a, b, mid, dim)
    S.ensures('within the segment', S.And(S.le(a, m), S.le(m, b)))
    j = d.state(d0, a, b, ws, 'partition')
    S.ensures('below first', S.And(S.Implies(S.And(S.le(a, j), S.lt(j, m)), below(d.ids.at(j))), S.Implies(S.And(S.le(m, j), S.lt(j, b)), S.Not(below(d.ids.at(j))))))


@contract(P, H + ':BVH._bucket_partition', **O)
def bucket_partition(S):
    """permutes the segment and returns a position in it; every primitive falls into some bucket"""
    K = S.mod(H).BVH
    g = S.mod('pytracer.geometry')
    dim = S.choice('dim', [0, 1, 2])
    n = 12
    at = S.int('idx', 0, n - 2)
    if not S.symbolic:
        cnt = S.int('n', 1, 7)
        d = conc_data(S, cnt)
        a = S.int('a', 0, cnt - 1)
        b = S.int('b', a + 1, cnt)
        cb = g.BBox()
        for x in d[a:b]:
            cb.union(x.centroid)
        S.requires(bool(cb.pMin[dim] < cb.pMax[dim]))
        was = list(d)
        m = K._bucket_partition(d, a, b, at, n, dim, cb)
        same_items(S, d, was, a, b)
        S.ensures('within the segment', a <= m <= b)
        return
    N, pr, d, a, b, ws = data(S)
    S.requires(S.lt(a, b))
    d0 = d.copy()
    lo, hi = [S.real('cl%d' % k) for k in range(3)], [S.real('ch%d' % k) for k in range(3)]
    S.requires(S.lt(lo[dim], hi[dim]))
    within = lambda x: S.And(S.le(lo[dim], pr.centre(x)[dim]), S.le(pr.centre(x)[dim], hi[dim]))
    # requires: the centroids of the segment lie in the centroid bounds
    first = d.ids
    d.ids = ints(S, 'ids', N, lambda ids, j: [S.eq(ids.at(j), first.at(j)), S.Implies(S.And(S.le(a, j), S.lt(j, b)), within(ids.at(j)))])
    d0.ids = d.ids.copy()

    def havoc(loc, t):
        i, k = S.fresh_int('i'), S.fresh_int('k')
        S.requires(S.And(S.le(a, i), S.le(i, k), S.lt(k, b)))
        d.permute(d0, a, b, ws, lambda ids, j: [S.Implies(S.And(S.le(a, j), S.lt(j, b)), within(ids.at(j)))])
        return {'i': i, 'k': k}

    def check(loc, t):
        i, k = loc['i'], loc['k']
        S.ensures('scan range', S.And(S.le(a, i), S.le(i, k), S.lt(k, b)), 'inv')
        j = d.state(d0, a, b, ws, 'scan', 'inv')
        S.ensures('within the centroid bounds', S.Implies(S.And(S.le(a, j), S.lt(j, b)), within(d.ids.at(j))), 'inv')
    BUCK.use(S, havoc, check)
    BUCK.variant = lambda loc: loc['k'] - loc['i'] + 1
    m = K._bucket_partition(d, a, b, at, n, dim, box(S, lo, hi))
    S.ensures('within the segment', S.And(S.le(a, m), S.le(m, b)))
    d.state(d0, a, b, ws, 'partition')


@contract(P, H + ':BVH._insertion_sort', **O)
def insertion_sort(S):
    """permutes the segment (that the centroids ascend is checked on samples only: no property depends on it)"""
    K = S.mod(H).BVH
    dim = S.choice('dim', [0, 1, 2])
    if not S.symbolic:
        n = S.int('n', 1, 7)
        d = conc_data(S, n)
        a = S.int('a', 0, n - 1)
        b = S.int('b', a, n)
        was = list(d)
        K._insertion_sort(d, a, b, dim)
        same_items(S, d, was, a, b)
        S.ensures('ascending', all(d[i].centroid[dim] <= d[i + 1].centroid[dim] for i in range(a, b - 1)))
        return
    N, pr, d, a, b, ws = data(S)
    d0 = d.copy()
    mem = {}

    def havoc0(loc, i):
        d.permute(d0, a, b, ws)
        return {x: mem.get(x) for x in ()}

    def check0(loc, i):
        d.state(d0, a, b, ws, 'sorted part', 'inv')

    # inner loop: the primitive lifted out (dk) leaves a hole at k
    def start(loc):
        if 'd1' not in mem:
            mem['d1'], mem['x'], mem['i'] = d.copy(), loc['dk'].id, loc['i']

    def full(ids, pos, k, x):
        c = object.__new__(Data)
        c.__dict__.update(d.__dict__)
        c.ids, c.pos = ids.copy(), pos.copy()
        c.ids._put((k,), x)
        c.pos._put((x,), k)
        return c

    def havoc1(loc, t):
        k = S.fresh_int('k')
        S.requires(S.And(S.le(a, k), S.le(k, mem['i'])))
        d1, x = mem['d1'], mem['x']
        pos = ints(S, 'pos', N)

        def facts(ids, j):
            y = ids.at(j)
            seg = S.And(S.le(a, j), S.lt(j, b))
            return [S.Implies(S.And(seg, S.ne(j, k)), S.And(S.le(0, y), S.lt(y, N), S.ne(y, x), S.eq(pos.at(y), j), S.le(a, d1.pos.at(y)), S.lt(d1.pos.at(y), b),
                                                            S.eq(d1.ids.at(d1.pos.at(y)), y))),
                    S.Implies(S.Not(seg), S.And(S.eq(y, d1.ids.at(j)), S.eq(pos.at(y), d1.pos.at(y))))]
        d.ids, d.pos = ints(S, 'ids', N, facts), pos.copy()
        for w in ws:
            S.requires(full(d.ids, d.pos, k, x).has(d1, a, b, w))
        return {'k': k}

    def check1(loc, t):
        start(loc)
        k, d1, x = loc['k'], mem['d1'], mem['x']
        S.ensures('the lifted primitive stays', S.eq(loc['dk'].id, x), 'inv')
        S.ensures('hole within the segment', S.And(S.le(a, k), S.le(k, mem['i'])), 'inv')
        j = S.fresh_int('j')
        S.requires(S.And(S.le(0, j), S.lt(j, N)))
        y = d.ids.at(j)
        seg = S.And(S.le(a, j), S.lt(j, b))
        S.ensures('shifted', S.And(S.Implies(S.And(seg, S.ne(j, k)), S.And(S.ne(y, x), S.eq(d.pos.at(y), j), S.le(a, d1.pos.at(y)), S.lt(d1.pos.at(y), b),
                                                                           S.eq(d1.ids.at(d1.pos.at(y)), y))),
                                   S.Implies(S.Not(seg), S.And(S.eq(y, d1.ids.at(j)), S.eq(d.pos.at(y), d1.pos.at(y))))), 'inv')
        for w in ws:
            S.ensures('loses no primitive', full(d.ids, d.pos, k, x).has(d1, a, b, w), 'inv')
    SORT[0].use(S, havoc0, check0)
    SORT[1].use(S, havoc1, check1)
    SORT[1].variant = lambda loc: loc['k'] - a
    K._insertion_sort(d, a, b, dim)
    d.state(d0, a, b, ws, 'sort')


# ------------------------------------------------------------------ construction
class Ordered(object):
    """the list of primitives in the order of the leaves: numbers ids, ghost inverse pos"""

    def __init__(self, S, N):
        self.S, self.N = S, N
        self.n = S.int('n0', 0)
        self.ids, self.pos = ints(S, 'oid', N), ints(S, 'opos', N)

    def copy(self):
        c = object.__new__(Ordered)
        c.__dict__.update(self.__dict__)
        c.ids, c.pos = self.ids.copy(), self.pos.copy()
        return c

    def __vlen__(self):
        return self.n

    def append(self, p):
        self.ids._put((self.n,), p.id)
        self.pos._put((p.id,), self.n)
        self.n = self.n + 1

    def grow(self, o0, n1, member, what=None):
        """havoc: the members of a segment are appended, in some order (or at the place what gives)"""
        S = self.S
        pos = ints(S, 'opos', self.N, lambda p, x: [S.Implies(S.Not(member(x)), S.eq(p.at(x), o0.pos.at(x)))])
        q = pos.copy()

        def facts(ids, k):
            x = ids.at(k)
            new = S.And(S.le(o0.n, k), S.lt(k, n1))
            return [S.Implies(new, S.And(S.le(0, x), S.lt(x, self.N), member(x), S.eq(q.at(x), k))), S.Implies(S.lt(k, o0.n), S.eq(x, o0.ids.at(k)))]
        self.ids, self.pos, self.n = ints(S, 'oid', self.N, facts), pos, n1

    def holds(self, w, lo, hi):
        S = self.S
        return S.And(S.le(lo, self.pos.at(w)), S.lt(self.pos.at(w), hi), S.eq(self.ids.at(self.pos.at(w)), w))

    def state(self, o0, n1, member, ws, kind, name):
        S = self.S
        S.ensures(name + ': as many', S.eq(self.n, n1), kind)
        k = S.fresh_int('k')
        S.requires(S.le(0, k))
        x = self.ids.at(k)
        S.ensures(name + ': only of the segment, once', S.And(
            S.Implies(S.And(S.le(o0.n, k), S.lt(k, n1)), S.And(member(x), S.eq(self.pos.at(x), k))),
            S.Implies(S.lt(k, o0.n), S.eq(x, o0.ids.at(k)))), kind)
        y = S.fresh_int('y')
        S.requires(S.And(S.le(0, y), S.lt(y, self.N)))
        S.ensures(name + ': others stay', S.Implies(S.Not(member(y)), S.eq(self.pos.at(y), o0.pos.at(y))), kind)
        for w in ws:
            S.ensures(name + ': every one of the segment', S.Implies(member(w), self.holds(w, o0.n, n1)), kind)


def boxes(S, name):
    lo, hi = [S.fresh(name + 'lo') for _ in range(3)], [S.fresh(name + 'hi') for _ in range(3)]
    return box(S, lo, hi)


@contract(P, [H + ':BVH._recursive_build', H + ':BVH._BVHNode.init_leaf', H + ':BVH._BVHNode.init_inter', H + ':BVH._BVHNode.__init__'], weight=4, shards=4, time=3, **O)
def build(S):
    """the subtree of a segment holds each of its primitives in exactly one leaf, in consecutive leaf order, left child first; its box
    contains those of its primitives and children; every call is on a smaller non-empty segment"""
    m = S.mod(H)
    if not S.symbolic:
        return build_sampled(S)
    K = m.BVH
    N, pr, d, a, b, ws = data(S)
    w = ws[0]
    S.requires(S.lt(a, b))
    S.requires(S.And(S.le(0, d.pos.at(w)), S.lt(d.pos.at(w), N), S.eq(d.ids.at(d.pos.at(w)), w)))
    d0 = d.copy()
    o = Ordered(S, N)
    S.requires(S.le(o.n + b - a, N))
    o0 = o.copy()
    tree = K.__new__(K)
    tree.max_prim_per_node = S.int('most', 1)
    tree.split_method = S.choice('split', [K.SplitMethod.MIDDLE, K.SplitMethod.SAH])
    tree.primitives = S.list(N, lambda k: Rec(id=k))
    cnt = S.int('count', 0)
    seg = [a, b, cnt]
    cb = {'min': [None] * 3, 'max': [None] * 3}
    src = d.copy()              # state of the build data while the boxes are computed

    # ---- loops
    def havoc(loc, i):
        out = {}
        for x in sorted(BUILD_AT[0].reads):
            v = loc.get(x)
            if x == 'ordered_prims':
                mem = lambda y: S.And(d.member(y, a, b), S.lt(d.pos.at(y), i))
                o.grow(o0, o0.n + (i - a), mem)
                g = o.ids
                o.ids = ints(S, 'oid', N, lambda ids, k: [S.eq(ids.at(k), g.at(k)), S.Implies(S.And(S.le(o0.n, k), S.lt(k, o0.n + i - a)), S.eq(ids.at(k), d.ids.at(a + k - o0.n)))])
                S.requires(S.Implies(mem(w), o.holds(w, o0.n, o.n)))
            elif x == 'bbox' and x in BUILD_AT[0].touched:
                if S.decide(S.eq(i, a)):
                    out[x] = S.mod('pytracer.geometry').BBox()
                else:
                    out[x] = boxes(S, 'bb')
                    S.requires(S.Implies(S.And(d.member(w, a, b), S.lt(d.pos.at(w), i)), inside(S, out[x], pr.lo(w), pr.hi(w))))
            elif x == 'centroid_bounds' and 'buckets' not in BUILD_AT[0].reads:
                if S.decide(S.eq(i, a)):
                    out[x] = S.mod('pytracer.geometry').BBox()
                else:
                    out[x] = boxes(S, 'cb')
                    for k in range(3):
                        for side, v in (('min', out[x].pMin[k]), ('max', out[x].pMax[k])):
                            j = cb[side][k] = S.fresh_int('j' + side)
                            S.requires(S.And(S.le(a, j), S.lt(j, i), S.eq(v, pr.centre(d.ids.at(j))[k])))
                        S.requires(S.le(out[x].pMin[k], out[x].pMax[k]))
            elif x == 'buckets':
                out[x] = [[S.fresh_int('cnt'), boxes(S, 'bk')] for _ in range(len(v))]
                for bk in out[x]:
                    bk[1].bucket = True
                c, y = loc['centroid_bounds'], pr.centre(d.ids.at(i))
                S.requires(S.Implies(S.lt(i, b), S.And(*[S.And(S.le(c.pMin[k], y[k]), S.le(y[k], c.pMax[k])) for k in range(3)])))
        return out

    def check(loc, i):
        at = BUILD_AT[0]
        for x in sorted(at.reads):
            v = loc.get(x)
            if x == 'ordered_prims':
                mem = lambda y: S.And(d.member(y, a, b), S.lt(d.pos.at(y), i))
                S.ensures('the same list', v is o, 'inv')
                k = S.fresh_int('k')
                S.ensures('leaf order', S.And(S.eq(o.n, o0.n + (i - a)), S.Implies(S.And(S.le(o0.n, k), S.lt(k, o.n)), S.eq(o.ids.at(k), d.ids.at(a + k - o0.n)))), 'inv')
                o.state(o0, o0.n + (i - a), mem, ws, 'inv', 'leaf')
            elif x == 'bbox' and x in at.touched:
                if v.pMin[0] == float('inf'):
                    S.ensures('empty box before the first', S.eq(i, a), 'inv')
                else:
                    S.ensures('box of the primitives so far', S.Implies(S.And(d.member(w, a, b), S.lt(d.pos.at(w), i)), inside(S, v, pr.lo(w), pr.hi(w))), 'inv')
            elif x == 'centroid_bounds' and 'buckets' not in at.reads:
                if v.pMin[0] == float('inf'):
                    S.ensures('empty box before the first', S.eq(i, a), 'inv')
                else:
                    last = i - 1
                    for k in range(3):
                        for side, val in (('min', v.pMin[k]), ('max', v.pMax[k])):
                            opts = [j for j in (cb[side][k], last) if j is not None]
                            S.ensures('bounds of the centroids are attained', S.Or(*[S.And(S.le(a, j), S.lt(j, i), S.eq(val, pr.centre(d.ids.at(j))[k])) for j in opts]), 'inv')
                        S.ensures('ordered', S.le(v.pMin[k], v.pMax[k]), 'inv')
                    j = S.fresh_int('j')
                    S.requires(S.And(S.le(a, j), S.lt(j, i)))
                    y = pr.centre(d.ids.at(j))
                    # an arbitrary earlier one: by the invariant it was within the box before this iteration
                    if at.before is not None:
                        S.requires(S.Implies(S.lt(j, last), S.And(*[S.And(S.le(at.before[0][k], y[k]), S.le(y[k], at.before[1][k])) for k in range(3)])))
                    S.ensures('bounds of the centroids', S.And(*[S.And(S.le(v.pMin[k], y[k]), S.le(y[k], v.pMax[k])) for k in range(3)]), 'inv')

    class At(object):
        pass
    BUILD_AT = [None]
    for c in BUILD:
        def hv(loc, i, c=c):
            BUILD_AT[0] = c
            out = havoc(loc, i)
            x = out.get('centroid_bounds')
            c.before = None if x is None or x.pMin[0] == float('inf') else ([x.pMin[k] for k in range(3)], [x.pMax[k] for k in range(3)])
            return out

        def ck(loc, i, c=c):
            BUILD_AT[0] = c
            c.before = getattr(c, 'before', None)
            c.touched = [x for x in c.names if x == 'bbox' and 'centroid_bounds' not in c.reads and 'buckets' not in c.reads]
            check(loc, i)
        c.before = None
        c.use(S, hv, ck)

    # ---- callees, by contract
    calls = []

    def recur(self, dd, sg, od):
        s, e = sg[0], sg[1]
        S.ensures('called on a smaller non-empty segment', S.And(S.le(a, s), S.lt(s, e), S.le(e, b), S.lt(e - s, b - a)), 'requires')
        S.ensures('called with the same lists', self is tree and dd is d and od is o and sg is seg, 'requires')
        dp, op = d.copy(), o.copy()
        mem = lambda y: dp.member(y, s, e)
        d.permute(dp, s, e, ws)
        o.grow(op, op.n + (e - s), mem)
        S.requires(S.Implies(mem(w), o.holds(w, op.n, o.n)))
        size = S.fresh_int('size')
        S.requires(S.le(1, size))
        node = K._BVHNode()
        node.bounds = boxes(S, 'nb')
        node.size, node.lo, node.hi = size, op.n, o.n
        node.member = mem
        S.requires(S.Implies(mem(w), inside(S, node.bounds, pr.lo(w), pr.hi(w))))
        calls.append((node, s, e))
        sg[0], sg[1], sg[2] = S.fresh_int('s0'), S.fresh_int('s1'), sg[2] + size
        return node

    def split(dd, s, e, mid, dim):
        S.ensures('splits its own segment', S.And(dd is d, S.eq(s, a), S.eq(e, b)), 'requires')
        dp = d.copy()
        ends = [dp.ids.at(j) for j in (cb['min'][dim], cb['max'][dim]) if j is not None]
        r = S.fresh_int('mid')
        S.requires(S.And(S.le(a, r), S.le(r, b)))
        below = lambda x: S.lt(pr.centre(x)[dim], mid)
        d.permute(dp, a, b, ws + ends, lambda ids, j: [S.Implies(S.And(S.le(a, j), S.lt(j, r)), below(ids.at(j))),
                                                       S.Implies(S.And(S.le(r, j), S.lt(j, b)), S.Not(below(ids.at(j))))])
        for x in ends:
            d.ids.at(d.pos.at(x))
        return r

    def bucket(dd, s, e, idx, n, dim, c):
        S.ensures('splits its own segment', S.And(dd is d, S.eq(s, a), S.eq(e, b)), 'requires')
        S.ensures('within the buckets', S.And(S.le(0, idx), S.lt(idx, n - 1)), 'requires')
        S.ensures('an axis along which centroids differ', S.lt(c.pMin[dim], c.pMax[dim]), 'requires')
        r = S.fresh_int('mid')
        S.requires(S.And(S.le(a, r), S.le(r, b)))
        d.permute(d.copy(), a, b, ws)
        return r

    def sort(dd, s, e, dim):
        S.ensures('sorts its own segment', S.And(dd is d, S.eq(s, a), S.eq(e, b)), 'requires')
        d.permute(d.copy(), a, b, ws)
    run = K._recursive_build
    S.stub(H + ':BVH._recursive_build', recur)
    S.stub(H + ':BVH._partition', split)
    S.stub(H + ':BVH._bucket_partition', bucket)
    S.stub(H + ':BVH._insertion_sort', sort)

    union = S.get('pytracer.geometry:BBox.union')

    def join(self, other):
        # the boxes of the buckets only enter the costs
        return self if getattr(other, 'bucket', False) or getattr(self, 'bucket', False) else union(self, other)
    S.stub('pytracer.geometry:BBox.union', join)

    def area(self):
        return S.fresh('area', S.num('0.001'))
    S.stub('pytracer.geometry:BBox.surface_area', area)
    S.stub(H + ':np.argmin', lambda c: S.choice('best', range(len(c))) if len(c) == 1 else S.choice('best', [0, len(c) - 1]))
    node = run(tree, d, seg, o)
    mem = lambda y: d0.member(y, a, b)
    d.state(d0, a, b, ws, 'build')
    o.state(o0, o0.n + (b - a), mem, ws, 'ensures', 'leaves')
    S.ensures('box contains the primitives', S.Implies(mem(w), inside(S, node.bounds, pr.lo(w), pr.hi(w))))
    if node.children[0] is None:
        S.ensures('a leaf over its range', S.And(node.children[1] is None, len(calls) == 0, S.eq(node.first_offset, o0.n), S.eq(node.n_prim, b - a), S.eq(seg[2], cnt + 1)))
    else:
        S.ensures('two children in order', S.And(len(calls) == 2, node.children[0] is calls[0][0], node.children[1] is calls[1][0], S.eq(node.n_prim, 0)))
        c0, c1 = node.children
        S.ensures('consecutive ranges', S.And(S.eq(c0.lo, o0.n), S.eq(c0.hi, c1.lo), S.eq(c1.hi, o0.n + b - a)))
        S.ensures('nodes counted', S.eq(seg[2], cnt + 1 + c0.size + c1.size))
        S.ensures('split axis', S.And(S.le(0, node.split_axis), S.le(node.split_axis, 2)))
        for c in (c0, c1):
            S.ensures('box contains those of the children', inside(S, node.bounds, c.bounds.pMin, c.bounds.pMax))


class Prim(object):
    """sampled primitive: an axis-aligned rectangle or box hit at its first crossing, within bounds that may be wider"""

    def __init__(self, i, lo, hi, core=None):
        self.id, self.lo, self.hi, self.asked = i, lo, hi, 0
        self.core = core or (lo, hi)

    def full_refine(self, out):
        out.append(self)

    def hit(self, r):
        t0, t1 = r.mint, r.maxt
        for k in range(3):
            o, d = float(r.o[k]), float(r.d[k])
            if d == 0:
                if not self.core[0][k] <= o <= self.core[1][k]:
                    return None
                continue
            x, y = sorted([(self.core[0][k] - o) / d, (self.core[1][k] - o) / d])
            t0, t1 = max(t0, x), min(t1, y)
        return t0 if t0 <= t1 else None

    def intersect(self, r, isect):
        t = self.hit(r)
        if t is None:
            return False
        r.maxt, isect.dg = t, self
        return True

    def intersect_p(self, r):
        return self.hit(r) is not None


def core(S, i, lo, e):
    """the part of the bounds that is hit: all, or a slice of them"""
    k = S.choice('slice%d' % i, [None, 0, 1, 2])
    if k is None:
        return None
    a = list(lo)
    a[k] += e[k] * S.choice('at%d' % i, [.25, .5, 1.])
    return a, [a[k] if j == k else x + y for j, (x, y) in enumerate(zip(lo, e))]


def aimed(S, prims, o, d):
    """rays towards a primitive, or any"""
    if S.choice('aimed', [False, True]):
        p = prims[S.int('aim', 0, len(prims) - 1)]
        w = S.choice('aim at', [.125, .5, .75])
        return [(1 - w) * a + w * b - x for a, b, x in zip(p.core[0], p.core[1], o)]
    return d


def sampled(S, n, method=None):
    g = S.mod('pytracer.geometry')
    prims = []
    deep = S.choice('layout', ['uniform', 'grid', 'geometric', 'same'])
    for i in range(n):
        if deep == 'uniform':
            lo = [S.real('l%d%d' % (i, k), -3, 3) for k in range(3)]
        elif deep == 'grid':
            lo = [float(S.int('l%d%d' % (i, k), -2, 2)) for k in range(3)]
        elif deep == 'geometric':
            lo = [2. ** i, 0., 0.]
        else:
            lo = [1., 1., 1.]
        e = [S.choice('e%d%d' % (i, k), [0., .25, 1., 4.]) for k in range(3)]
        p = Prim(i, lo, [x + y for x, y in zip(lo, e)], core(S, i, lo, e))
        p.world_bound = lambda p=p: g.BBox(g.Point(*p.lo), g.Point(*p.hi))
        prims.append(p)
    K = S.mod(H).BVH
    return prims, K(prims, S.choice('most', [1, 2, 4, 8]), method or S.choice('method', ['sah', 'middle']))


def build_sampled(S):
    n = S.int('n', 1, 14)
    prims, t = sampled(S, n)
    S.ensures('every primitive in one place', sorted(p.id for p in t.primitives) == list(range(n)))
    seen = []

    def walk(k):
        nd = t.nodes[k]
        if nd.n_prim > 0:
            r = list(range(nd.offset, nd.offset + nd.n_prim))
            seen.extend(r)
            end = k + 1
        else:
            r1, e1 = walk(k + 1)
            S.ensures('second child after the first subtree', e1 == nd.offset)
            r2, end = walk(nd.offset)
            r = r1 + r2
        for i in r:
            p = t.primitives[i]
            S.ensures('box contains the primitives', all(nd.bounds.pMin[c] <= p.lo[c] and p.hi[c] <= nd.bounds.pMax[c] for c in range(3)))
        return r, end
    r, end = walk(0)
    S.ensures('leaves in order, all nodes used', r == list(range(n)) and end == len(t.nodes))


# ------------------------------------------------------------------ flattening
FIELDS = ['offset', 'n_prim', 'axis', 'size', 'lo', 'hi']


class Nodes(object):
    """the array of linear nodes: fields by index; ghost fields: number of nodes of the subtree and the range of its primitives"""

    def __init__(self, S, n, name='n'):
        self.S, self.n = S, n
        self.f = {x: ints(S, name + x, n) for x in FIELDS}
        self.box = [S.array('%sbox%d' % (name, k), n) for k in range(6)]
        self.read = None            # what holds of a node when it is read

    def copy(self):
        c = object.__new__(Nodes)
        c.__dict__.update(self.__dict__)
        c.f = {k: v.copy() for k, v in self.f.items()}
        c.box = [v.copy() for v in self.box]
        return c

    def __vlen__(self):
        return self.n

    def bounds(self, k):
        v = [self.box[i].at(k) for i in range(6)]
        return box(self.S, v[:3], v[3:])

    def __getitem__(self, k):
        from pyvc.sym import bterm, ctx
        S = self.S
        ctx().definedness('index', bterm(S.And(S.le(0, k), S.lt(k, self.n))))
        if self.read:
            self.read(k)
        return Node(self, k)

    def same(self, other, k):
        S = self.S
        return S.And(*([S.eq(self.f[x].at(k), other.f[x].at(k)) for x in FIELDS] + [S.eq(a.at(k), b.at(k)) for a, b in zip(self.box, other.box)]))

    def valid(self, k, lim, inside_):
        """node k is the root of a well-formed subtree that ends before lim"""
        S, f = self.S, {x: self.f[x] for x in FIELDS}
        g = lambda x, i: f[x].at(i)
        size, lo, hi, n = g('size', k), g('lo', k), g('hi', k), g('n_prim', k)
        one, two = k + 1, g('offset', k)
        leaf = S.And(S.eq(g('offset', k), lo), S.eq(n, hi - lo), S.eq(size, 1))
        inner = S.And(S.eq(n, 0), S.eq(two, k + 1 + g('size', one)), S.eq(size, 1 + g('size', one) + g('size', two)), S.le(1, g('size', one)), S.le(1, g('size', two)),
                      S.eq(g('lo', one), lo), S.eq(g('hi', one), g('lo', two)), S.eq(g('hi', two), hi), S.le(0, g('axis', k)), S.le(g('axis', k), 2))
        return S.And(S.le(0, k), S.le(1, size), S.le(k + size, lim), S.lt(lo, hi), S.Or(S.And(S.lt(0, n), leaf), inner), inside_(self, k))


class Node(object):
    def __init__(self, nodes, k):
        self.__dict__.update(nodes=nodes, k=k)

    def __getattr__(self, x):
        if x in FIELDS:
            return self.nodes.f[x].at(self.k)
        if x == 'bounds':
            return self.nodes.bounds(self.k)
        raise AttributeError(x)

    def __setattr__(self, x, v):
        from pyvc.sym import lift
        if x in FIELDS:
            self.nodes.f[x]._put((self.k,), lift(v))
        elif x == 'bounds':
            for i in range(3):
                self.nodes.box[i]._put((self.k,), lift(v.pMin[i]))
                self.nodes.box[3 + i]._put((self.k,), lift(v.pMax[i]))
        else:
            raise AttributeError(x)


@contract(P, [H + ':BVH._flatten_tree', H + ':BVH._LinearNode.__init__'], **O)
def flatten(S):
    """a subtree of k nodes becomes k consecutive nodes in depth-first order: a leaf keeps its range, an inner node is followed by its first
    subtree and holds the place of the second; other nodes are untouched; the result is the place of its root"""
    K = S.mod(H).BVH
    if not S.symbolic:
        return build_sampled(S)
    n, off = S.int('n', 1), S.int('off', 0)
    tree = K.__new__(K)
    nodes = tree.nodes = Nodes(S, n)
    before = nodes.copy()
    at = S.int('at', 0)                          # an arbitrary primitive, by its place, and its box
    wl, wh = [S.real('wl%d' % k) for k in range(3)], [S.real('wh%d' % k) for k in range(3)]

    def covers(lo, hi):
        # the range of a node lies in that of the subtree, and its box covers the primitives of the range
        return lambda nd, k: S.And(S.le(lo, nd.f['lo'].at(k)), S.le(nd.f['hi'].at(k), hi),
                                   S.Implies(S.And(S.le(nd.f['lo'].at(k), at), S.lt(at, nd.f['hi'].at(k))), inside(S, nd.bounds(k), wl, wh)))

    def subtree(name):
        nd = K._BVHNode()
        nd.bounds, nd.size, nd.lo, nd.hi = boxes(S, name), S.fresh_int('size'), S.fresh_int('lo'), S.fresh_int('hi')
        S.requires(S.And(S.le(1, nd.size), S.lt(nd.lo, nd.hi), S.Implies(S.And(S.le(nd.lo, at), S.lt(at, nd.hi)), inside(S, nd.bounds, wl, wh))))
        return nd
    root = subtree('root')
    leaf = S.choice('kind', ['leaf', 'inner']) == 'leaf'
    if leaf:
        root.init_leaf(root.lo, root.hi - root.lo, root.bounds)
        S.requires(S.eq(root.size, 1))
    else:
        c = root.children = [subtree('c0'), subtree('c1')]
        root.split_axis = S.int('axis', 0, 2)
        S.requires(S.And(S.eq(c[0].lo, root.lo), S.eq(c[0].hi, c[1].lo), S.eq(c[1].hi, root.hi), S.eq(root.size, 1 + c[0].size + c[1].size)))
    S.requires(S.le(off + root.size, n))
    offset = [off]
    calls, layers = [], []

    def recur(self, nd, o):
        S.ensures('called on a child at the next free place', S.And(self is tree and o is offset and nd in root.children, S.le(o[0] + nd.size, n)), 'requires')
        a, b, old = o[0], o[0] + nd.size, nodes.copy()
        fresh = Nodes(S, n, 'm%d' % len(calls))
        out = lambda k: S.Not(S.And(S.le(a, k), S.lt(k, b)))
        mix = lambda new, was: (lambda idx: S.If(out(idx[0]), was.at(*idx), new.at(*idx)))
        ifint = lambda new, was: (lambda idx: _ite(S, out(idx[0]), was.at(*idx), new.at(*idx)))
        for x in FIELDS:
            nodes.f[x]._get = ifint(fresh.f[x], old.f[x])
        for k in range(6):
            nodes.box[k]._get = mix(fresh.box[k], old.box[k])
        snap = nodes.copy()
        # the root of the subtree, and any node of it
        S.requires(S.And(S.eq(snap.f['size'].at(a), nd.size), S.eq(snap.f['lo'].at(a), nd.lo), S.eq(snap.f['hi'].at(a), nd.hi)))
        layers.append(lambda k: S.requires(S.Implies(S.Not(out(k)), snap.valid(k, b, covers(nd.lo, nd.hi)))))
        calls.append(nd)
        o[0] = b
        return a
    run = K._flatten_tree
    S.stub(H + ':BVH._flatten_tree', recur)
    r = run(tree, root, offset)
    # ghost fields of the root
    for x in ('size', 'lo', 'hi'):
        setattr(nodes[off], x, getattr(root, x))
    S.ensures('place of the root', S.And(S.eq(r, off), S.eq(offset[0], off + root.size)))
    S.ensures('children in order', calls == ([] if leaf else root.children))
    k = S.fresh_int('k')
    S.requires(S.And(S.le(0, k), S.lt(k, n)))
    for f in layers:
        f(k)
    mine = S.And(S.le(off, k), S.lt(k, off + root.size))
    S.ensures('every node of the subtree is well formed', S.Implies(mine, nodes.valid(k, off + root.size, covers(root.lo, root.hi))))
    S.ensures('other nodes untouched', S.Implies(S.Not(mine), nodes.same(before, k)))
    S.ensures('the root describes its subtree', S.And(S.eq(nodes.f['size'].at(off), root.size), S.eq(nodes.f['lo'].at(off), root.lo), S.eq(nodes.f['hi'].at(off), root.hi),
                                                      inside(S, nodes.bounds(off), root.bounds.pMin, root.bounds.pMax)))


def _ite(S, c, a, b):
    from pyvc import sym
    return sym._ite(c, a, b)


# ------------------------------------------------------------------ traversal
class Stack(object):
    """the pending nodes (an array of node numbers) with the ghost prefix sums of their subtree sizes"""

    def __init__(self, S, nodes, top):
        self.S, self.nodes, self.n = S, nodes, nodes.n
        self.ids, self.pref = ints(S, 'todo', nodes.n), ints(S, 'pref', nodes.n)
        self.base, self.bpref, self.top = self.ids.copy(), self.pref.copy(), top
        self.at0(top)
        self.at0(top - 1)

    def __vlen__(self):
        return self.n

    def at0(self, t):
        """invariant at stack place t: the entry is a node; sums add up and grow"""
        S, x, p = self.S, self.base, self.bpref
        S.requires(S.Implies(S.And(S.le(0, t), S.lt(t, self.top)), S.And(S.le(0, x.at(t)), S.lt(x.at(t), self.n), S.le(1, self.nodes.f['size'].at(x.at(t))),
                                                                        S.eq(p.at(t + 1), p.at(t) + self.nodes.f['size'].at(x.at(t))))))
        S.requires(S.Implies(S.And(S.le(0, t), S.le(t, self.top)), S.le(t, p.at(t))))
        S.requires(S.eq(p.at(0), 0))

    def __getitem__(self, t):
        from pyvc.sym import bterm, ctx
        ctx().definedness('index', bterm(self.S.And(self.S.le(0, t), self.S.lt(t, self.n))))
        return self.ids.at(t)

    def __setitem__(self, t, v):
        from pyvc.sym import bterm, ctx, lift
        ctx().definedness('index', bterm(self.S.And(self.S.le(0, t), self.S.lt(t, self.n))))
        self.ids._put((t,), lift(v))
        self.pref._put((t + 1,), self.pref.at(t) + self.nodes.f['size'].at(v))


class Scene(object):
    """a flattened tree over N primitives with arbitrary hits: primitive k is hit at T[k] when h[k] > 0.  Of one arbitrary primitive, the
    witness w, it is known where it is hit: every box of a node above it contains that point"""

    def __init__(self, S, flat=False):
        g = S.mod('pytracer.geometry')
        K = S.mod(H).BVH
        self.S, self.N = S, S.int('N', 1)
        self.nn = S.int('nodes', 1)
        self.T, self.h = S.array('T', self.N), S.array('h', self.N)
        self.w = S.int('w', 0)
        S.requires(S.lt(self.w, self.N))
        if flat:
            d = [S.num(0), S.real('dy'), S.num(0)]
        else:
            d = [S.real('d' + c) for c in 'xyz']
        for x in d:
            if not (flat and x.isconst()):
                S.requires(S.ne(x, 0))
        mint, maxt = S.real('mint'), S.real('maxt')
        S.requires(S.le(mint, maxt))
        self.maxt0 = maxt
        self.ray = g.Ray(S.point('o'), g.Vector(*d), mint, maxt)
        o = self.ray.o
        self.relevant = S.And(S.lt(0, self.h.at(self.w)), S.le(mint, self.T.at(self.w)), S.le(self.T.at(self.w), maxt))
        self.p = [o[k] + self.T.at(self.w) * d[k] for k in range(3)]
        self.d = d
        nodes = self.nodes = Nodes(S, self.nn)
        cover = lambda nd, k: S.And(S.le(0, nd.f['lo'].at(k)), S.le(nd.f['hi'].at(k), self.N), S.Implies(self.within(k), S.And(*[S.And(S.le(nd.box[i].at(k), self.p[i]), S.le(self.p[i], nd.box[3 + i].at(k))) for i in range(3)])))
        nodes.read = lambda k: S.requires(nodes.valid(k, self.nn, cover))
        nodes.read(0)
        # the root spans all primitives and all nodes (contracts build and flatten)
        S.requires(S.And(S.eq(nodes.f['lo'].at(0), 0), S.eq(nodes.f['hi'].at(0), self.N), S.eq(nodes.f['size'].at(0), self.nn)))
        t = self.tree = K.__new__(K)
        t.nodes = nodes
        t.primitives = S.list(self.N, self.prim)
        self.isect = Rec(dg=None, which=None)
        self.tested = []

    def within(self, k):
        f = self.nodes.f
        return self.S.And(self.S.le(f['lo'].at(k), self.w), self.S.lt(self.w, f['hi'].at(k)))

    def prim(self, k):
        S = self.S

        def can(r):
            return S.decide(S.And(S.lt(0, self.h.at(k)), S.le(r.mint, self.T.at(k)), S.le(self.T.at(k), r.maxt)))

        def intersect(r, isect):
            S.ensures('primitives are given the ray and the record', r is self.ray and isect is self.isect, 'requires')
            if can(r):
                r.maxt, isect.dg, isect.which = self.T.at(k), 'record', k
                return True
            return False
        return Rec(intersect=intersect, intersect_p=lambda r: can(r))

    def slab(self, b, r, inv, neg):
        """contract of the box test (contract slab)"""
        S = self.S
        S.ensures('box test of the ray', r is self.ray, 'requires')
        for k in range(3):
            if self.d[k].isconst():
                S.ensures('inverse of a null component', isinstance(inv[k], float) and inv[k] == S.inf, 'requires')
            else:
                S.ensures('inverse direction', S.eq(inv[k] * self.d[k], 1), 'requires')
                S.ensures('sign of the direction', S.Iff(S.truth(neg[k]), S.lt(self.d[k], 0)), 'requires')
        res = S.fresh_bool('box')
        t = self.T.at(self.w)
        S.requires(S.Implies(S.And(*([S.And(S.le(b.pMin[k], self.p[k]), S.le(self.p[k], b.pMax[k])) for k in range(3)] + [S.le(r.mint, t), S.le(t, r.maxt)])), res))
        return res

    def answered(self):
        """the witness is no longer of interest: a hit not further away is known"""
        return self.S.Implies(self.relevant, self.S.And(self.isect.which is not None, self.S.le(self.ray.maxt, self.T.at(self.w))))

    def record(self, hit):
        """the hit reported is that of some primitive, at the end of the range; without one nothing has changed"""
        S, r = self.S, self.ray
        if self.isect.which is None:
            return S.And(S.Not(S.truth(hit)), S.eq(r.maxt, self.maxt0), self.isect.dg is None)
        q = self.isect.which
        return S.And(S.truth(hit), self.isect.dg == 'record', S.le(0, q), S.lt(q, self.N), S.lt(0, self.h.at(q)), S.eq(self.T.at(q), r.maxt), S.le(r.mint, r.maxt), S.le(r.maxt, self.maxt0))

    def some_record(self):
        """havoc: an arbitrary such state; returns hit"""
        S, r = self.S, self.ray
        if S.decide(S.fresh_bool('hit')):
            q = S.fresh_int('q')
            r.maxt = S.fresh('maxt')
            self.isect.dg, self.isect.which = 'record', q
            S.requires(self.record(True))
            return True
        r.maxt, self.isect.dg, self.isect.which = self.maxt0, None, None
        return False


def walk(S, name, cuts, closest):
    m = S.mod(H)
    sc = Scene(S, S.choice('direction', ['general', 'parallel']) == 'parallel')
    nodes, r, w = sc.nodes, sc.ray, sc.w
    st = {'wt': None, 'stack': None}

    def pending(k, todo, top, places):
        """the witness is below the node at hand or below a pending one"""
        return S.Or(*([sc.within(k)] + [S.And(S.le(0, t), S.lt(t, top), sc.within(todo.at(t))) for t in places]))

    def done():
        return sc.answered() if closest else S.Not(sc.relevant)

    def havoc(loc, i):
        top, k = S.fresh_int('top'), S.fresh_int('node')
        stack = st['stack'] = Stack(S, nodes, top)
        S.requires(S.And(S.le(0, top), S.le(0, k), S.lt(k, nodes.n)))
        nodes.read(k)
        S.requires(S.le(stack.bpref.at(top) + nodes.f['size'].at(k), nodes.n))
        wt = st['wt'] = S.fresh_int('wt')
        st['hit'] = sc.some_record() if closest else False
        stack.at0(wt)
        S.requires(S.Or(done(), pending(k, stack.ids, top, [wt])))
        out = {'todo': stack, 'todo_idx': top, 'node_idx': k}
        if closest:
            out['hit'] = st['hit']
        return out

    def check(loc, i):
        top, k, todo = loc['todo_idx'], loc['node_idx'], loc['todo']
        S.ensures('node and stack height', S.And(S.le(0, top), S.le(0, k), S.lt(k, nodes.n)), 'inv')
        if todo is not st['stack']:
            # before the loop
            S.ensures('the search starts at the root', S.And(S.eq(top, 0), S.eq(k, 0), S.le(nodes.n, npx_len(todo))), 'inv')
            S.ensures('nothing found yet', sc.record(loc['hit']) if closest else True, 'inv')
            S.ensures('root above every primitive', sc.within(k), 'inv')
            return
        t = S.fresh_int('t')
        todo.at0(t)
        todo.at0(t + 1)
        S.ensures('pending entries', S.Implies(S.And(S.le(0, t), S.lt(t, top)), S.And(S.le(0, todo.ids.at(t)), S.lt(todo.ids.at(t), nodes.n), S.le(1, nodes.f['size'].at(todo.ids.at(t))),
                                                                                     S.eq(todo.pref.at(t + 1), todo.pref.at(t) + nodes.f['size'].at(todo.ids.at(t))))), 'inv')
        S.ensures('pending sums', S.And(S.Implies(S.And(S.le(0, t), S.le(t, top)), S.le(t, todo.pref.at(t))), S.eq(todo.pref.at(0), 0)), 'inv')
        S.ensures('pending nodes fit', S.And(S.le(1, nodes.f['size'].at(k)), S.le(todo.pref.at(top) + nodes.f['size'].at(k), nodes.n)), 'inv')
        S.ensures('no primitive is lost', S.Or(done(), pending(k, todo.ids, top, [st['wt'], top - 1])), 'inv')
        if closest:
            S.ensures('record', sc.record(loc['hit']), 'inv')

    # the primitives of a leaf
    def havoc1(loc, i):
        first = loc['node'].offset
        if closest:
            st['was'], st['had'] = r.maxt, sc.isect.which is not None
            out = {'hit': sc.some_record()}
            S.requires(S.And(S.le(r.maxt, st['was']), sc.isect.which is not None or not st['had']))
        else:
            out = {}
        S.requires(S.Implies(S.And(S.le(first, w), S.lt(w, first + i)), done()))
        return out

    def check1(loc, i):
        first = loc['node'].offset
        if closest:
            S.ensures('record', sc.record(loc['hit']), 'inv')
            if st.get('was') is not None:
                S.ensures('the range only shrinks, a record stays', S.And(S.le(r.maxt, st['was']), sc.isect.which is not None or not st['had']), 'inv')
        S.ensures('primitives of the leaf so far', S.Implies(S.And(S.le(first, w), S.lt(w, first + i)), done()), 'inv')
    cuts[0].use(S, havoc, check)
    cuts[0].variant = lambda loc: loc['todo'].pref.at(loc['todo_idx']) + nodes.f['size'].at(loc['node_idx'])
    cuts[1].use(S, havoc1, check1)
    S.stub(H + ':BVH._intersect_p', sc.slab)
    return sc


def npx_len(x):
    from pyvc import npx
    return npx.v_len(x)


def brute(S):
    n = S.int('n', 1, 12)
    prims, t = sampled(S, n)
    g = S.mod('pytracer.geometry')
    d = [S.choice('d?%d' % k, [0., 1., -1., None]) for k in range(3)]
    d = [S.real('d%d' % k, -1, 1) if x is None else x for k, x in enumerate(d)]
    S.requires(any(x != 0 for x in d))
    o = [S.choice('o?%d' % k, [0., 1., -2., None]) for k in range(3)]
    o = [S.real('o%d' % k, -4, 4) if x is None else x for k, x in enumerate(o)]
    d = aimed(S, prims, o, d)
    S.requires(any(x != 0 for x in d))
    r = g.Ray(g.Point(*o), g.Vector(*d), 0., S.choice('range', [2., 10., float('inf')]))
    hits = [(p.hit(r), p) for p in prims if p.hit(r) is not None]
    return t, r, hits


@contract(P, H + ':BVH.intersect', weight=3, shards=2, **dict(O, div='ieee'))
def closest(S):
    """for any flattened tree: the search terminates within the array, no primitive hit closer than the record is left out, and the record
    and the end of the range are those of a primitive hit; without a hit nothing changes"""
    if not S.symbolic:
        t, r, hits = brute(S)
        i = Rec(dg=None)
        m0 = r.maxt
        hit = t.intersect(r, i)
        S.ensures('a hit exactly when some primitive is hit', bool(hit) == bool(hits))
        if hits:
            S.ensures('the closest', S.And(S.eq(r.maxt, min(x for x, _ in hits)), i.dg.hit(r.__class__(r.o, r.d, 0., m0)) == r.maxt))
        else:
            S.ensures('nothing changes', r.maxt == m0 and i.dg is None)
        return
    sc = walk(S, 'intersect', WALK, True)
    hit = sc.tree.intersect(sc.ray, sc.isect)
    S.ensures('no closer hit is missed', sc.answered())
    S.ensures('a hit is reported when there is one', S.Implies(sc.relevant, S.truth(hit)))
    S.ensures('the record is that of the hit', sc.record(hit))


@contract(P, H + ':BVH.intersect_p', weight=3, shards=2, **dict(O, div='ieee'))
def any_hit(S):
    """true exactly when some primitive is hit within the range; the ray is not changed"""
    if not S.symbolic:
        t, r, hits = brute(S)
        m0 = r.maxt
        S.ensures('a hit exactly when some primitive is hit', bool(t.intersect_p(r)) == bool(hits))
        S.ensures('ray unchanged', r.maxt == m0)
        return
    sc = walk(S, 'intersect_p', SHADOW, False)
    q = []
    prim = sc.prim

    def item(k):
        p = prim(k)
        f = p.intersect_p
        p.intersect_p = lambda r: f(r) and (q.append(k) or True)
        return p
    sc.tree.primitives = S.list(sc.N, item)
    hit = sc.tree.intersect_p(sc.ray)
    S.ensures('a hit is reported when there is one', S.Implies(sc.relevant, S.truth(hit)))
    S.ensures('a reported hit is one', S.Implies(S.truth(hit), len(q) > 0))
    S.ensures('ray unchanged', S.eq(sc.ray.maxt, sc.maxt0))


@contract(P, H + ':BVH._intersect_p', div='ieee', tol=1e-6, shards=4, weight=3, time=3)
def slab(S):
    """a box that contains a point of the ray within its range is never rejected, also when the ray lies in a face or touches at its ends"""
    from contracts.c02_bbox import mkbox, contains
    from contracts.c03_slab import mkray
    m = S.mod(H)
    b = mkbox(S, 'b', empty=False)
    r = mkray(S)
    inv = 1. / r.d
    neg = inv < 0.
    t = S.real('t', -20, 20) if not S.symbolic else S.real('t')
    if not S.symbolic and S.choice('snap', [0, 1]):
        # sampled rays: some parameter at which a face is met
        k = S.choice('axis', [0, 1, 2])
        if r.d[k] != 0:
            t = (b.pMin[k] - r.o[k]) / r.d[k]
    p = [r.o[i] + t * r.d[i] for i in range(3)]
    met = S.And(S.le(r.mint, t), S.le(t, r.maxt), contains(S, b, p))
    if S.symbolic:
        S.requires(met)
    hit = S.truth(m.BVH._intersect_p(b, r, inv, neg))
    S.ensures('no box met is rejected', S.Implies(met, hit))


@contract(P, [H + ':BVH.__init__', H + ':BVH._BVHPrimitive.__init__', H + ':BVH.world_bound', H + ':BVH.can_intersect'], **O)
def construct(S):
    """the refined primitives, each with its world bound, are built into one tree and flattened into as many nodes; the bound is that of the
    root; no primitives give an empty accelerator that nothing hits"""
    m = S.mod(H)
    K = m.BVH
    g = S.mod('pytracer.geometry')
    method = S.choice('method', ['sah', 'middle', 'SAH', 'other'])
    if not S.symbolic:
        n = S.int('n', 0, 9)
        prims, t = sampled(S, n, method)
        if n:
            b = t.world_bound()
            S.ensures('bound', all(b.pMin[k] == min(p.lo[k] for p in prims) and b.pMax[k] == max(p.hi[k] for p in prims) for k in range(3)))
        else:
            b = t.world_bound()
            S.ensures('empty bound', bool(b.pMin[0] > b.pMax[0]) and not t.intersect(None, None) and not t.intersect_p(None))
        S.ensures('intersectable', t.can_intersect() is True)
        return
    N = S.int('N', 0)
    pr = Prims(S, N)
    parts = S.list(N, lambda k: Rec(id=k, world_bound=lambda: box(S, pr.lo(k), pr.hi(k))))
    given = S.list(S.int('given', 0), lambda k: Rec(full_refine=lambda out: None))
    # refinement itself is under contract in C20: here the refined list is arbitrary

    def havoc(loc, i):
        loc['self'].primitives = parts
        return {}
    INIT.use(S, havoc, lambda loc, i: None)
    state = {}
    root = Rec(bounds=boxes(S, 'root'))
    most = S.int('most', 1)

    def rec(self, data, seg, out):
        S.ensures('whole range, no nodes yet', S.And(S.eq(seg[0], 0), S.eq(seg[1], N), S.eq(seg[2], 0)), 'requires')
        S.ensures('refined primitives kept, result empty', self.primitives is parts and out == [] and self.max_prim_per_node is most, 'requires')
        want = K.SplitMethod.MIDDLE if method == 'middle' else K.SplitMethod.SAH
        S.ensures('split method', self.split_method is want, 'requires')
        k = S.fresh_int('k')
        S.requires(S.And(S.le(0, k), S.lt(k, N)))
        d = data[k]
        S.ensures('build data', S.And(S.eq(npx_len(data), N), S.eq(d.prim_idx, k), S.veq(d.bounds.pMin, pr.lo(k)), S.veq(d.bounds.pMax, pr.hi(k)), S.veq(d.centroid, pr.centre(k))), 'requires')
        state['out'], state['size'] = out, S.fresh_int('size')
        S.requires(S.le(1, state['size']))
        seg[0], seg[1], seg[2] = S.fresh_int('a'), S.fresh_int('b'), state['size']
        return root

    def flat(self, nd, off):
        S.ensures('tree flattened from place 0 into as many nodes', S.And(nd is root, len(off) == 1, S.eq(off[0], 0), S.eq(npx_len(self.nodes), state['size'])), 'requires')
        self.nodes[0].bounds = root.bounds
        off[0] = state['size']
        state['flat'] = True
        return 0
    S.stub(H + ':BVH._recursive_build', rec)
    S.stub(H + ':BVH._flatten_tree', flat)
    t = K(given, most, method)
    b = t.world_bound()
    S.ensures('intersectable', t.can_intersect() is True)
    if t.nodes is None:
        S.ensures('empty', S.And(S.eq(N, 0), b.pMin[0] == S.inf, not t.intersect(None, None), not t.intersect_p(None)))
    else:
        S.ensures('built and flattened', state.get('flat') is True and t.primitives is state['out'])
        S.ensures('bound of the root', S.And(S.veq(b.pMin, root.bounds.pMin), S.veq(b.pMax, root.bounds.pMax)))
