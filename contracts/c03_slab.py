"""C03: ray / box slab test is exact."""
from pyvc.api import contract
from contracts.c02_bbox import mkbox, lo_hi, contains

G = 'pytracer.geometry'
P = 'C03'


def mkray(S, inf=True):
    """arbitrary origin, non-null direction (axis-parallel ones included), parametric range"""
    g = S.mod(G)
    o = S.point('o')
    d = []
    for c in 'xyz':
        if S.choice('d%s?' % c, ['nonzero', 'zero']) == 'zero':
            d.append(S.num(0))
        else:
            v = S.real('d' + c)
            S.requires(S.Or(S.lt(v, 0), S.lt(0, v)))
            d.append(v)
    if all(x is not None and not S.symbolic and x == 0 for x in d) or (S.symbolic and all(x.isconst() for x in d)):
        S.requires(False)
    mint = S.real('mint')
    if inf and S.choice('range', ['finite', 'unbounded']) == 'unbounded':
        maxt = S.inf
    else:
        maxt = S.real('maxt')
        S.requires(S.le(mint, maxt))
    return g.Ray(o, g.Vector(*d), mint, maxt)


@contract(P, G + ':BBox.intersect_p', div='ieee', weight=5, n=3, tol=1e-6, shards=3)
def slab_exact(S):
    b = mkbox(S, 'b', empty=False)
    r = mkray(S)
    sb, sr = S.snap(b), S.snap(r)
    res = b.intersect_p(r)
    hit, t0, t1 = res
    hit = S.truth(hit)
    S.ensures('box and ray unchanged', S.And(S.unchanged(b, sb), S.unchanged(r, sr)))
    S.ensures('three results', len(res) == 3)
    t = S.real('t', -20, 20) if not S.symbolic else S.real('t')
    p = [r.o[i] + t * r.d[i] for i in range(3)]
    inrange = S.And(S.le(r.mint, t), S.le(t, r.maxt))
    inbox = contains(S, b, p)
    # complete: no parameter of the ray that lies in the box is missed
    S.ensures('a ray that meets the box in its range is reported', S.Implies(S.And(inrange, inbox), hit))
    if S.decide(hit):
        S.ensures('the reported interval is ordered', S.le(t0, t1))
        S.ensures('the reported interval lies in the range of the ray', S.And(S.le(r.mint, t0), S.le(t1, r.maxt)))
        S.ensures('every parameter reported is in the box', S.Implies(S.And(S.le(t0, t), S.le(t, t1)), inbox))
        S.ensures('every parameter in the box is reported', S.Implies(S.And(inrange, inbox), S.And(S.le(t0, t), S.le(t, t1))))
    else:
        S.ensures('a miss reports the empty interval at 0', S.And(S.eq(t0, 0), S.eq(t1, 0)))


@contract(P, G + ':BBox.intersect_p', div='ieee', n=3, tol=1e-6)
def slab_inside(S):
    """a ray that starts inside always hits, from its own mint"""
    b = mkbox(S, 'b', empty=False)
    r = mkray(S)
    S.requires(S.le(r.mint, 0))
    S.requires(S.le(0, r.maxt))
    S.requires(contains(S, b, r.o))
    hit, t0, t1 = b.intersect_p(r)
    S.ensures('ray from inside hits', S.truth(hit))
    S.ensures('interval contains the origin', S.And(S.le(t0, 0), S.le(0, t1)))
