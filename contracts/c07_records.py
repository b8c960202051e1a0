"""C07: the records of hits on spheres, cylinders and disks."""
import math

from pyvc.api import contract
from contracts.c07_quadrics import H, G, P, SP, CY, DI, placed, angle

# ------------------------------------------------------------------ hit records
class Carry(object):
    """a placement by contract: rays into the space of the shape, everything else out of it (the images by name)"""

    def __init__(self, S, world=None, local=None):
        self.S, self.world, self.local, self.out = S, world, local, []

    def __call__(self, x):
        S = self.S
        if self.local is not None:
            S.ensures('only the given ray is carried in', S.And(x is self.world))
            return self.local
        y = x.__class__(*[S.real('w%d%s' % (len(self.out), c), *(() if S.symbolic else (-3, 3))) for c in 'xyz'])
        self.out.append((x, y))
        return y

    def source(self, y, cls):
        """what y is the image of"""
        S = self.S
        for a, b in self.out:
            if type(a) is cls and all(S.identical(y[i], b[i]) if S.symbolic else y[i] == b[i] for i in range(3)):
                return a
        S.ensures('carried out of the space of the shape as a %s' % cls.__name__, False)
        return [0, 0, 0]


def record_shape(S, cls, full):
    """a shape, and one of its kept points (Z c, Z s, z)"""
    sh = S.mod(H)
    o2w, w2o, k, tr = placed(S, True)
    pm = S.num(360) if full else S.real('pm', 5, 355)
    R, Z, z = S.real('R', .25, 4), S.real('Z', .25, 4), S.real('z', -2, 2)
    S.requires(S.And(S.lt(0, R), S.lt(0, Z)))
    if S.symbolic:
        c, s = S.real('c'), S.real('s')
        S.rewrite(s * s, 1 - c * c)
        S.lemma('bounded', S.And(S.le(-1, c), S.le(c, 1)))
    else:
        f = S.real('f', .05, .95) * math.radians(pm)
        c, s = math.cos(f), math.sin(f)
    z0, z1, ri = -R, R, S.num(0)
    if cls == 'Sphere':
        if S.symbolic:
            # z = R cos, Z = R sin of the polar angle
            ct, st = S.real('ct'), S.real('st')
            S.rewrite(st * st, 1 - ct * ct)
            S.requires(S.And(S.lt(-1, ct), S.lt(ct, 1), S.lt(0, st)))
            Z, z, z0, z1 = R * st, R * ct, -R, R
            th = S.acos(ct)
            S.rewrite(S.cos(th), ct)
            S.rewrite(S.sin(th), st)  # sin(acos x)^2 = 1 - x^2
            S.lemma('height on the sphere', S.And(S.lt(-R, z), S.lt(z, R), S.lt(0, Z)))
        else:
            R = (Z * Z + z * z) ** .5
            z0, z1 = -R, R
        if not full:
            z0, z1 = (S.real('z0'), S.real('z1')) if S.symbolic else (z - S.real('za', .05, .95) * (z + R), z + S.real('zb', .05, .95) * (R - z))
            S.requires(S.And(S.lt(-R, z0), S.lt(z0, z), S.lt(z, z1), S.lt(z1, R)))
        shape = sh.Sphere(o2w, w2o, False, R, z0, z1, pm)
    elif cls == 'Cylinder':
        if S.symbolic:
            R = Z
        else:
            R = Z
        z0, z1 = (S.real('z0'), S.real('z1')) if S.symbolic else (z - S.real('za', .1, 2), z + S.real('zb', .1, 2))
        S.requires(S.And(S.lt(z0, z), S.lt(z, z1)))
        shape = sh.Cylinder(o2w, w2o, False, R, z0, z1, pm)
    else:
        R = Z + S.real('zb', .1, 2)
        ri = S.num(0) if full else Z * S.real('za', .1, .9)
        S.requires(S.And(S.lt(Z, R), S.lt(ri, Z), True if full else S.le(0, ri)))
        shape = sh.Disk(o2w, w2o, False, z, R, ri, pm)
    S.requires(S.le(angle(S, Z * c, Z * s), S.pi * pm / 180))
    return shape, R, Z, c, s, z, z0, z1, ri, S.pi * pm / 180


def hit_record(S, cls, full):
    shape, R, Z, c, s, z, z0, z1, ri, pm = record_shape(S, cls, full)
    g = S.mod(G)
    P_ = [Z * c, Z * s, z]
    d, t = S.vec('d'), S.real('t', .2, 4)
    if not S.symbolic:
        S.requires(abs(d[2]) > .1)
    mint, maxt = S.real('mint', -6, 0), S.inf
    far = S.bool('far')
    if cls == 'Disk':
        S.requires(S.Or(S.lt(S.num('.0001'), d[2]), S.lt(d[2], S.num('-.0001'))))
    else:
        n = 3 if cls == 'Sphere' else 2
        b = sum(d[i] * P_[i] for i in range(n))
        A = sum(d[i] * d[i] for i in range(n))
        if far:
            S.requires(S.lt(0, b))
        else:
            S.requires(S.lt(b, 0))
            b = -b
        if S.symbolic:
            S.sqrt_hint(2, b)
            S.sqrt_hint(Z)
        else:
            S.requires(b > .05)
        if far:
            S.requires(S.lt(t - S.div(2 * b, A), mint))  # the near root lies before the range
        if not S.symbolic and far:
            mint = t - S.real('m', .1, .9) * 2 * b / A
    S.requires(S.le(mint, t))
    o = [P_[i] - t * d[i] for i in range(3)]
    ray, local = g.Ray(S.point('o'), S.vec('e'), mint, maxt), g.Ray(g.Point(*o), d, mint, maxt)
    w2o, o2w = shape.w2o, shape.o2w = Carry(S, ray, local), Carry(S)
    if S.symbolic:
        if cls != 'Disk':
            C = sum(o[i] * o[i] for i in range(n)) - R * R
            B = 2 * sum(d[i] * o[i] for i in range(n))
            S.lemma('discriminant', S.eq(B * B - 4 * A * C, 4 * b * b))
            S.lemma('positive', S.lt(0, b * b))
            S.lemma('width of the chord', S.And(S.lt(0, A), S.lt(0, b / A)))
        if cls == 'Sphere':
            th = S.acos(S.div(z, R))
            t0 = S.pi if full else S.acos(S.div(z0, R))
            t1 = 0 if full else S.acos(S.div(z1, R))
            S.requires(S.And(S.lt(t1, th), S.lt(th, t0)), 'acos is decreasing')
            dt = t0 - t1
            S.sqrt_hint(pm, dt, R, Z)
        elif cls == 'Cylinder':
            S.sqrt_hint(pm, z1 - z0, Z)
        ev = g.Ray.__call__
        S.stub(G + ':Ray.__call__', lambda self, x: g.Point(*P_) if S.identical(x, t) else ev(self, x))  # C01
        nz = g.normalize

        def unit(v):
            # the normal of the record (under contract in C20) by name
            vs = [b for a, b in o2w.out if type(b) is g.Vector]
            return v if any(S.identical(v.x, a.cross(b).x) for a in vs for b in vs if a is not b) else nz(v)
        S.stub(G + ':normalize', unit)
    hit, thit, eps, dg = shape.intersect(ray)
    S.ensures('hit at the parameter of the point', S.And(S.truth(hit), S.eq(thit, t)))
    S.ensures('error bound proportional to the parameter', S.eq(eps, S.num('0.00001') * t))
    S.ensures('record of this shape', dg.shape is shape)

    def is_(name, y, cls, want):
        a = o2w.source(y, cls)
        S.ensures(name, S.And(*[S.eq(a[i], want[i]) for i in range(3)]))
    is_('point', dg.p, g.Point, P_)
    is_('tangent along u is the derivative of the point', dg.dpdu, g.Vector, [-pm * P_[1], pm * P_[0], 0])
    S.ensures('u locates the azimuth', S.eq(dg.u * pm, angle(S, P_[0], P_[1])))
    S.ensures('u in the unit interval', S.And(S.le(0, dg.u), S.le(dg.u, 1)))
    if cls == 'Sphere':
        th = S.acos(S.div(z, R))
        t0 = S.pi if full else S.acos(S.div(z0, R))
        dt = (0 if full else S.acos(S.div(z1, R))) - t0
        S.ensures('v locates the polar angle', S.eq(dg.v * dt, th - t0))
        if True:
            S.ensures('v in the unit interval', S.And(S.le(0, dg.v), S.le(dg.v, 1)))
        dpdv = [dt * z * c, dt * z * s, -dt * Z]
        curv = ([S.div(x, R) for x in (-pm * P_[1], pm * P_[0], 0)], [S.div(x, R) for x in dpdv])
    elif cls == 'Cylinder':
        S.ensures('v locates the height', S.eq(z0 + dg.v * (z1 - z0), z))
        S.ensures('v in the unit interval', S.And(S.le(0, dg.v), S.le(dg.v, 1)))
        dpdv = [0, 0, z1 - z0]
        curv = ([-pm * s, pm * c, 0], [0, 0, 0])
    else:
        S.ensures('v locates the radius', S.eq(R + dg.v * (ri - R), Z))
        S.ensures('v in the unit interval', S.And(S.le(0, dg.v), S.le(dg.v, 1)))
        dpdv = [(ri - R) * c, (ri - R) * s, 0]
        curv = ([0, 0, 0], [0, 0, 0])
    is_('tangent along v is the derivative of the point', dg.dpdv, g.Vector, dpdv)
    is_('normal changes along u as the surface curves', dg.dndu, g.Normal, curv[0])
    is_('normal changes along v as the surface curves', dg.dndv, g.Normal, curv[1])


for _cls, _t in (('Sphere', SP), ('Cylinder', CY), ('Disk', DI)):
    for _full in (True, False):
        def _c(S, cls=_cls, full=_full):
            hit_record(S, cls, full)
        _c.__name__ = '%s_%srecord' % (_cls.lower(), '' if _full else 'clipped_')
        contract(P, _t + '.intersect', cancel=True, tol=1e-6, div='assume', sqrt='assume', fork_ite=True, nf=True, feas_ms=40 if (_cls, _full) == ('Sphere', False) else 0, shards=1 if _cls == 'Sphere' else 0)(_c)
