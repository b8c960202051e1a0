"""C02: bounding-box algebra."""
from pyvc.api import contract

G = 'pytracer.geometry'
P = 'C02'


def mkbox(S, n, empty=True):
    """an arbitrary box: the empty box or a proper one built from two arbitrary corners"""
    g = S.mod(G)
    if empty and S.choice(n + '?', ['proper', 'empty']) == 'empty':
        return g.BBox()
    a, b = S.point(n + 'a'), S.point(n + 'b')
    return g.BBox(a, b)


def lo_hi(b):
    return [b.pMin.x, b.pMin.y, b.pMin.z], [b.pMax.x, b.pMax.y, b.pMax.z]


def contains(S, b, p):
    l, h = lo_hi(b)
    return S.And(*[S.And(S.le(l[i], p[i]), S.le(p[i], h[i])) for i in range(3)])


@contract(P, G + ':BBox.__init__', exact=True)
def bbox_ctor(S):
    g = S.mod(G)
    a, b = S.point('a'), S.point('b')
    sa, sb = S.snap(a), S.snap(b)
    box = g.BBox(a, b)
    l, h = lo_hi(box)
    for i, c in enumerate('xyz'):
        S.ensures('pMin.%s is the smaller coordinate' % c, S.same(l[i], S.min(a[i], b[i])))
        S.ensures('pMax.%s is the larger coordinate' % c, S.same(h[i], S.max(a[i], b[i])))
    S.ensures('arguments unchanged', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))
    # the box owns its corners
    box.pMin.x = S.num(99)
    box.pMax.y = S.num(99)
    S.ensures('no aliasing', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))


@contract(P, G + ':BBox.__init__', exact=True)
def bbox_ctor_default(S):
    g = S.mod(G)
    box = g.BBox()
    p = S.point('p')
    S.ensures('default box contains no point', S.Not(contains(S, box, p)))
    S.ensures('inside() agrees', S.Not(S.truth(box.inside(p))))
    u = g.BBox.Union(box, p)
    S.ensures('union of the empty box and a point is that point', S.And(S.veq(u.pMin, p), S.veq(u.pMax, p)))
    b = mkbox(S, 'b', empty=False)
    w = g.BBox.Union(box, b)
    S.ensures('empty box is the unit of union', S.And(S.veq(w.pMin, b.pMin), S.veq(w.pMax, b.pMax)))


@contract(P, G + ':BBox.from_bbox', exact=True)
def bbox_copy(S):
    g = S.mod(G)
    b = mkbox(S, 'b', empty=False)
    s = S.snap(b)
    c = g.BBox.from_bbox(b)
    S.ensures('copy equals original', S.And(S.veq(c.pMin, b.pMin), S.veq(c.pMax, b.pMax)))
    S.ensures('corner 0', S.veq(c[0], b.pMin))
    S.ensures('corner 1', S.veq(c[1], b.pMax))
    c.expand(1)
    c.union(S.point('q'))
    S.ensures('copy does not alias', S.unchanged(b, s))


def _union_post(S, pre, r, l1, h1, l2, h2):
    l, h = lo_hi(r)
    for i, c in enumerate('xyz'):
        S.ensures('%slower %s is the least' % (pre, c), S.And(S.le(l[i], l1[i]), S.le(l[i], l2[i]), S.Or(S.same(l[i], l1[i]), S.same(l[i], l2[i]))))
        S.ensures('%supper %s is the greatest' % (pre, c), S.And(S.ge(h[i], h1[i]), S.ge(h[i], h2[i]), S.Or(S.same(h[i], h1[i]), S.same(h[i], h2[i]))))


@contract(P, G + ':BBox.Union', exact=True)
def bbox_Union_box(S):
    g = S.mod(G)
    a, b = mkbox(S, 'a'), mkbox(S, 'b')
    sa, sb = S.snap(a), S.snap(b)
    l1, h1 = lo_hi(a)
    l2, h2 = lo_hi(b)
    r = g.BBox.Union(a, b)
    _union_post(S, '', r, l1, h1, l2, h2)
    S.ensures('operands unchanged', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))
    S.ensures('result is a new box', r is not a and r is not b)
    r.expand(1)
    S.ensures('result does not alias', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))


@contract(P, G + ':BBox.Union', exact=True)
def bbox_Union_point(S):
    g = S.mod(G)
    a, b = mkbox(S, 'a'), S.point('b')
    sa, sb = S.snap(a), S.snap(b)
    l1, h1 = lo_hi(a)
    r = g.BBox.Union(a, b)
    _union_post(S, '', r, l1, h1, list(b), list(b))
    r.expand(1)
    S.ensures('operands unchanged', S.And(S.unchanged(a, sa), S.unchanged(b, sb)))


@contract(P, G + ':BBox.union', exact=True)
def bbox_union_box(S):
    a, b = mkbox(S, 'a'), mkbox(S, 'b')
    sb = S.snap(b)
    l1, h1 = lo_hi(a)
    l2, h2 = lo_hi(b)
    r = a.union(b)
    S.ensures('returns self', r is a)
    _union_post(S, '', a, l1, h1, l2, h2)
    a.expand(1)
    S.ensures('argument unchanged', S.unchanged(b, sb))


@contract(P, G + ':BBox.union', exact=True)
def bbox_union_point(S):
    a, b = mkbox(S, 'a'), S.point('b')
    sb = S.snap(b)
    l1, h1 = lo_hi(a)
    r = a.union(b)
    S.ensures('returns self', r is a)
    _union_post(S, '', a, l1, h1, list(b), list(b))
    a.expand(1)
    S.ensures('argument unchanged', S.unchanged(b, sb))


@contract(P, [G + ':BBox.union', G + ':BBox.Union'])
def bbox_union_type(S):
    g = S.mod(G)
    a = mkbox(S, 'a')
    v = S.vec('v')
    S.ensures('union with a direction is refused', S.raises(TypeError, a.union, v))
    S.ensures('Union with a direction is refused', S.raises(TypeError, g.BBox.Union, a, v))


@contract(P, G + ':BBox.inside', exact=True)
def bbox_inside(S):
    b, p = mkbox(S, 'b'), S.point('p')
    s = S.snap(b)
    r = S.truth(b.inside(p))
    S.ensures('inside iff every coordinate lies between the corners (inclusive)', S.Iff(r, contains(S, b, p)))
    S.ensures('frame', S.unchanged(b, s))


@contract(P, G + ':BBox.overlaps', exact=True)
def bbox_overlaps(S):
    a, b = mkbox(S, 'a'), mkbox(S, 'b')
    r = S.truth(a.overlaps(b))
    la, ha = lo_hi(a)
    lb, hb = lo_hi(b)
    # non-empty intersection  <=>  the intervals meet on each axis
    meet = S.And(*[S.le(S.max(la[i], lb[i]), S.min(ha[i], hb[i])) for i in range(3)])
    if S.symbolic or True:
        S.ensures('overlap iff the boxes share a point', S.Iff(r, meet))
    S.ensures('symmetric', S.Iff(r, S.truth(b.overlaps(a))))


@contract(P, G + ':BBox.expand', exact=True)
def bbox_expand(S):
    a = mkbox(S, 'a', empty=False)
    d = S.real('d')
    l, h = lo_hi(a)
    r = a.expand(d)
    S.ensures('returns self', r is a)
    l2, h2 = lo_hi(a)
    for i, c in enumerate('xyz'):
        S.ensures('lower %s' % c, S.eq(l2[i], l[i] - d))
        S.ensures('upper %s' % c, S.eq(h2[i], h[i] + d))


@contract(P, [G + ':BBox.surface_area', G + ':BBox.volume'])
def bbox_measure(S):
    a = mkbox(S, 'a', empty=False)
    s = S.snap(a)
    l, h = lo_hi(a)
    d = S.sub(h, l)
    S.ensures('surface area', S.eq(a.surface_area(), 2 * (d[0] * d[1] + d[1] * d[2] + d[0] * d[2])))
    S.ensures('volume', S.eq(a.volume(), d[0] * d[1] * d[2]))
    S.ensures('frame', S.unchanged(a, s))


@contract(P, G + ':BBox.surface_area')
def bbox_area_monotone(S):
    g = S.mod(G)
    a, b = mkbox(S, 'a', empty=False), mkbox(S, 'b', empty=False)
    u = g.BBox.Union(a, b)
    S.ensures('area nonnegative', S.ge(a.surface_area(), 0))
    la, ha = lo_hi(a)
    lu, hu = lo_hi(u)
    for i in range(3):
        S.lemma('extent%d' % i, S.And(S.ge(hu[i] - lu[i], ha[i] - la[i]), S.ge(ha[i] - la[i], 0)))


@contract(P, G + ':BBox.maximum_extent', exact=True)
def bbox_maximum_extent(S):
    a = mkbox(S, 'a', empty=False)
    l, h = lo_hi(a)
    d = S.sub(h, l)
    k = int(a.maximum_extent())
    S.ensures('axis index', k in (0, 1, 2))
    S.ensures('no axis is longer', S.And(*[S.ge(d[k], d[i]) for i in range(3)]))


@contract(P, G + ':BBox.lerp')
def bbox_lerp(S):
    a = mkbox(S, 'a', empty=False)
    t = [S.real('t%d' % i) for i in range(3)]
    l, h = lo_hi(a)
    p = a.lerp(*t)
    for i in range(3):
        S.ensures('affine in coordinate %d' % i, S.eq(p[i], l[i] + t[i] * (h[i] - l[i])))
    S.ensures('parameters in [0,1] stay inside', S.Implies(S.And(*[S.between(0, x, 1) for x in t]), contains(S, a, p)))
    g = S.mod(G)
    S.ensures('a point', type(p) is g.Point)


@contract(P, G + ':BBox.offset')
def bbox_offset(S):
    a = mkbox(S, 'a', empty=False)
    l, h = lo_hi(a)
    for i in range(3):
        S.requires(S.lt(l[i], h[i]))
    p = S.point('p')
    o = a.offset(p)
    for i in range(3):
        S.ensures('inverse of lerp in coordinate %d' % i, S.eq(o[i] * (h[i] - l[i]), p[i] - l[i]))
    q = a.lerp(o.x, o.y, o.z)
    S.ensures('lerp(offset(p)) == p', S.veq(q, p))


@contract(P, G + ':BBox.bounding_sphere')
def bbox_sphere(S):
    a = mkbox(S, 'a', empty=False)
    l, h = lo_hi(a)
    c, r = a.bounding_sphere()
    for i in range(3):
        S.ensures('centre %d' % i, S.eq(2 * c[i], l[i] + h[i]))
    S.ensures('radius nonnegative', S.ge(r, 0))
    d = S.sub(h, l)
    S.ensures('radius reaches the corners', S.eq(4 * r * r, S.dot(d, d)))


@contract(P, [G + ':BBox.__eq__', G + ':BBox.__ne__'], exact=True)
def bbox_equality(S):
    a, b = mkbox(S, 'a'), mkbox(S, 'b')
    if S.bool('share'):
        b = S.mod(G).BBox.from_bbox(a) if S.bool('copy') else a
    la, ha = lo_hi(a)
    lb, hb = lo_hi(b)
    same = S.And(*[S.And(S.same(la[i], lb[i]), S.same(ha[i], hb[i])) for i in range(3)])
    S.ensures('== iff both corners agree', S.Iff(S.truth(a == b), same))
    S.ensures('!= is the negation', S.Iff(S.truth(a != b), S.Not(same)))


@contract(P, G + ':BBox.__getitem__')
def bbox_getitem(S):
    a = mkbox(S, 'a')
    S.ensures('[0] is the lower corner', S.veq(a[0], a.pMin))
    S.ensures('[1] is the upper corner', S.veq(a[1], a.pMax))
    S.ensures('other keys refused', S.raises(KeyError, lambda: a[2]))
