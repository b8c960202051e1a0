"""C14: the BSDF of a surface point: shading frame, sum of components, sampling mixture."""
from pyvc import api
from pyvc.api import contract
from contracts.c13_reflection import spec, seq

M = 'pytracer.reflection.bsdf'
Q = M + ':BSDF'
P = 'C14'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)
CUTS = {n: [api.cut(M, 'BSDF.' + n, k) for k in range(3 if n == 'sample_f' else 1)]
        for n in ('sample_f', 'pdf', 'n_components', 'f', 'rho_hd', 'rho_hh')}


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def onb(S):
    """a shading frame: unit normal and a unit tangent orthogonal to it"""
    G = S.mod('pytracer.geometry')
    n, s = S.unit('n', 'Normal'), S.unit('s')
    d = S.dot(n, s)
    if S.symbolic:
        S.ideal(d, 0)
    else:
        S.requires(abs(d) < .99)
        s = G.normalize(G.Vector(*[s[i] - d * n[i] for i in range(3)]))
    return n, s


def bsdf(S):
    G, m = S.mod('pytracer.geometry'), S.mod(M)
    n, s = onb(S)
    l = S.real('len', .25, 4)
    if S.symbolic:
        S.sqrt_hint(l)
    ng = S.unit('g', 'Normal')
    dg = Rec(nn=n, dpdu=G.Vector(*[l * s[i] for i in range(3)]), p=G.Point(0., 0., 0.))
    return m.BSDF(dg, ng, S.real('eta', .5, 3)), n, s, ng, dg


@contract(P, [Q + '.__init__', Q + '.w2l', Q + '.l2w'], **O)
def frame(S):
    """the shading frame is orthonormal and right-handed with the normal as z; the two maps are inverse rotations"""
    G = S.mod('pytracer.geometry')
    b, n, s, ng, dg = bsdf(S)
    S.ensures('normal', S.veq(b.nn, n))
    S.ensures('geometric normal', S.veq(b.ng, ng))
    S.ensures('tangent along dpdu', S.veq(b.sn, s))
    fr = (b.sn, b.tn, b.nn)
    for i in range(3):
        for j in range(i, 3):
            S.ensures('orthonormal %d%d' % (i, j), S.eq(S.dot(fr[i], fr[j]), 1 if i == j else 0))
    S.ensures('right-handed', S.veq(S.cross(b.sn, b.tn), b.nn))
    v = S.vec('v')
    a = b.l2w(v)
    S.ensures('local coordinates', S.And(*[S.eq(b.w2l(v)[i], S.dot(v, fr[i])) for i in range(3)]))
    S.ensures('into the world and back', S.veq(b.w2l(a), v))
    S.ensures('into the frame and back', S.veq(b.l2w(b.w2l(v)), v))
    S.ensures('the local pole is the normal', S.veq(b.l2w(G.Vector(0., 0., 1.)), n))
    S.ensures('length kept', S.eq(S.dot(a, a), S.dot(v, v)))
    S.ensures('no component yet', S.And(S.eq(b.n_BDF, 0), S.eq(b.n_components(S.mod(M).BDFType.ALL), 0)))
    S.ensures('index of refraction', S.eq(b.eta, S.inputs['eta'] if not S.symbolic else S.real('eta', .5, 3)))


# ------------------------------------------------------------------ components
TYPES = ('R|D', 'T|G', 'R|S')
BITS = dict(R=1, T=2, D=4, G=8, S=16)


def bits(s):
    return sum(BITS[c] for c in s.split('|'))


FLAGS = {'ALL': 31, 'R|D|G|S': 29, 'T|D|G|S': 30, 'no specular': 15, 'R|D': 5, 'R only': 1}


def matching(flags):
    return [i for i, t in enumerate(TYPES) if bits(t) & flags == bits(t)]


def components(S, m, maxn=4):
    """a list of any length of components: type, value, density and sampled direction of each are arbitrary"""
    V = S.mod('pytracer.geometry').Vector
    N = S.int('N', 0, None if S.symbolic else maxn)
    ty = S.array('ty', N, 0, 2) if S.symbolic else [S.int('ty%d' % k, 0, 2) for k in range(N)]
    if S.symbolic:
        ints = {}
    fs = S.array('fs', (N, 3), 0, 1)
    ps = S.array('ps', N, 0, 3)
    log = []
    real = S.mod('pytracer').Spectrum

    class Comp(m.BDF):
        def __init__(self, k, t):
            m.BDF.__init__(self, bits(TYPES[t]))
            self.k, self.t = k, t
            self.spec = real.create_from_list([S.at(fs, k, c) for c in range(3)])

        def f(self, wo, wi):
            log.append((self.k, 'f', wo, wi))
            return self.spec.copy() if False else real.create_from_list([S.at(fs, self.k, c) for c in range(3)])

        def pdf(self, wo, wi):
            log.append((self.k, 'pdf', wo, wi))
            return S.at(ps, self.k)

        def sample_f(self, wo, u1, u2):
            log.append((self.k, 's', wo, u1, u2))
            w = S.memo['wi']
            return [S.memo['p'] if S.memo['p'] is not None else S.at(ps, self.k), V(w.x, w.y, w.z),
                    real.create_from_list([S.memo['sf'][c] for c in range(3)])]

        def rho_hd(self, wo, samples):
            log.append((self.k, 'hd', wo, samples))
            return self.f(wo, wo)

        def rho_hh(self, n, a, b):
            log.append((self.k, 'hh', n, a, b))
            return self.f(None, None)
    S.memo = dict(p=None)
    made = []

    def tyat(k):
        return S.at(ty, k)

    def item(k):
        for j, o in made:
            if S.decide(S.eq(j, k)):
                return o
        t = 2
        for c in range(2):
            if S.decide(S.eq(tyat(k), c)):
                t = c
                break
        else:
            S.requires(S.eq(tyat(k), 2))
        o = Comp(k, t)
        made.append((k, o))
        return o
    return Rec(N=N, ty=tyat, fs=fs, ps=ps, log=log, lst=S.list(N, item), Comp=Comp)


def total(S, name, c, codes, val, nonneg=False):
    """the sequence of partial sums of val over the matching components (ghost)"""
    if not S.symbolic:
        def g(i):
            r = 0
            for k in range(int(i)):
                if int(c.ty(k)) in codes:
                    r = r + val(k)
            return r
        return g
    depth = [0]
    if nonneg:
        # by induction over the recursion below: 0 <= a(0), and a step adds a term that is not negative
        k = S.fresh_int('k')
        S.requires(S.And(S.le(0, k), S.lt(k, c.N)))
        x = S.fresh('x', 0)
        S.lemma('partial sums are not negative (step)', S.le(0, x + S.If(S.Or(*[S.eq(c.ty(k), t) for t in codes]), val(k), 0)))

    def facts(a, k):
        r = [S.le(0, a.at(k))] if nonneg else []
        r += [S.Implies(S.eq(k, 0), S.eq(a.at(0), 0))]
        if depth[0] < 1:
            depth[0] += 1
            try:
                hit = S.Or(*[S.eq(c.ty(k), t) for t in codes]) if codes else False
                r.append(S.Implies(S.And(S.le(0, k), S.lt(k, c.N)), S.eq(a.at(k + 1), a.at(k) + S.If(hit, val(k), 0))))
            finally:
                depth[0] -= 1
        return r
    a = S.array(name, c.N + 1, facts=facts)
    return lambda i: a.at(i)


def isspec(S, v):
    return hasattr(v, 'c') and hasattr(v, 'add') or type(v).__name__ == 'RGBSpectrum'


def iscount(v):
    from pyvc.sym import Sym
    if isinstance(v, Sym):
        return v.isint()
    return isinstance(v, int) and not isinstance(v, bool)


def roles(S, spec_=None, count=None, num=None):
    sp = S.mod('pytracer').Spectrum

    def role(name, v):
        if type(v).__name__ == 'RGBSpectrum':
            return spec_ and (lambda i: sp.create_from_list([g(i) for g in spec_]),
                              lambda v, i: S.And(*[S.eq(v[k], spec_[k](i)) for k in range(3)]))
        g = count if iscount(v) else num
        return g and (lambda i: g(i), lambda v, i: S.eq(v, g(i)))
    return role


def install(S, b, c):
    if S.symbolic:
        b.bdfs = c.lst
        b._BSDF__nBDF = c.N
    else:
        for x in c.lst:
            b.push_back(x)


def locals_ok(S, b, c, wo, wi, kind):
    """every component was asked for the local directions"""
    a, d = b.w2l(wo), b.w2l(wi)
    return S.And(True, *[S.And(S.veq(l[2], a), S.veq(l[3], d)) for l in c.log if l[1] == kind])


def plain(S):
    """a BSDF with an arbitrary frame (orthonormality is not needed to state how the components are combined)"""
    if not S.symbolic:
        return bsdf(S)
    G, m = S.mod('pytracer.geometry'), S.mod(M)
    n = S.vec('n')
    n = G.Normal(n.x, n.y, n.z)
    ng = S.vec('g')
    ng = G.Normal(ng.x, ng.y, ng.z)
    dg = Rec(nn=n, dpdu=S.vec('s'), p=G.Point(0., 0., 0.))
    return m.BSDF(dg, ng, S.real('eta', .5, 3)), n, dg.dpdu, ng, dg


O2 = dict(div='assume', sqrt='assume', tol=1e-6)


def dirs(S, *names):
    return [S.vec(x) if S.symbolic else S.unit(x) for x in names]


@contract(P, Q + '.f', **O2)
def value(S):
    """the sum of the matching components of the side told by the geometric normal, at the local directions"""
    m = S.mod(M)
    b, n, s, ng, dg = plain(S)
    c = components(S, m)
    install(S, b, c)
    wo, wi = dirs(S, 'wo', 'wi')
    flags = S.choice('flags', sorted(FLAGS))
    same = S.decide(S.lt(0, S.dot(wi, ng) * S.dot(wo, ng)))
    codes = matching(FLAGS[flags] & ~(2 if same else 1))
    F = [total(S, 'F%d' % k, c, codes, lambda j, k=k: S.at(c.fs, j, k)) for k in range(3)]
    CUTS['f'][0].accumulate(S, roles(S, spec_=F))
    r = b.f(wo, wi, m.BDFType(FLAGS[flags]))
    S.ensures('sum of the matching components', S.And(*[S.eq(r[k], F[k](c.N)) for k in range(3)]))
    S.ensures('evaluated at the local directions', locals_ok(S, b, c, wo, wi, 'f'))


@contract(P, [Q + '.pdf', Q + '.n_components'], **O2)
def density(S):
    """the average density of the matching components, zero when there are none"""
    m = S.mod(M)
    b, n, s, ng, dg = plain(S)
    c = components(S, m)
    install(S, b, c)
    wo, wi = dirs(S, 'wo', 'wi')
    flags = S.choice('flags', sorted(FLAGS))
    codes = matching(FLAGS[flags])
    C = total(S, 'C', c, codes, lambda j: 1, True)
    G = total(S, 'G', c, codes, lambda j: S.at(c.ps, j))
    CUTS['pdf'][0].accumulate(S, roles(S, count=intg(S, C), num=G))
    CUTS['n_components'][0].accumulate(S, roles(S, count=intg(S, C)))
    S.ensures('number of matching components', S.eq(b.n_components(m.BDFType(FLAGS[flags])), C(c.N)))
    r = b.pdf(wo, wi, m.BDFType(FLAGS[flags]))
    if S.decide(S.eq(C(c.N), 0)):
        S.ensures('nothing matches', S.eq(r, 0))
    else:
        S.ensures('average', S.eq(r * C(c.N), G(c.N)))
    S.ensures('evaluated at the local directions', locals_ok(S, b, c, wo, wi, 'pdf'))


def intg(S, C):
    """an integer-valued ghost"""
    if not S.symbolic:
        return C

    def g(i):
        v = C(i)
        k = S.fresh_int('c')
        S.requires(S.eq(k, v))
        return k
    return g


@contract(P, Q + ".sample_f", time=2, shards=3, weight=5, **O2)
def sample(S):
    """the component told by the first random number is sampled with the other two; density and value are those of the
    mixture unless the component is specular"""
    m = S.mod(M)
    G = S.mod('pytracer.geometry')
    b, n, s, ng, dg = plain(S)
    c = components(S, m)
    install(S, b, c)
    wo, lw = dirs(S, 'wo', 'wi')
    u = [S.real('u%d' % k, 0, 1) for k in range(3)]
    S.requires(S.lt(u[2], 1))
    flags = S.choice('flags', sorted(FLAGS) if not S.symbolic else ['ALL', 'no specular'])
    codes = matching(FLAGS[flags])
    S.memo['wi'] = lw
    S.memo['sf'] = [S.real('sf%d' % k, 0, 1) for k in range(3)]
    S.memo['p'] = S.choice('black', [0., None])
    wi = b.l2w(lw)
    side = S.dot(wi, ng) * S.dot(wo, ng)
    if not S.symbolic:
        S.requires(abs(side) > 1e-6)
    same = S.decide(S.lt(0, side))
    codes2 = matching(FLAGS[flags] & ~(2 if same else 1))
    C = total(S, 'C', c, codes, lambda j: 1, True)
    D = total(S, 'D', c, codes, lambda j: S.at(c.ps, j))
    F = [total(S, 'F%d' % k, c, codes2, lambda j, k=k: S.at(c.fs, j, k)) for k in range(3)]
    Ci = intg(S, C)
    hit = [None]
    if S.symbolic:
        nm = Ci(c.N)
        j0 = S.fresh_int('pick')

        def chosen():
            k = [l[0] for l in c.log if l[1] == 's']
            return k[-1]
        CUTS['n_components'][0].accumulate(S, roles(S, count=Ci))
        # the selection loop counts down the matching components seen
        start = []

        def pick(name, v):
            start.append(v)
            return (lambda i: start[0] - Ci(i), lambda v, i: S.And(S.eq(v, start[0] - Ci(i)), S.le(0, v)))

        def pick_role(name, v):
            if not iscount(v):
                return None
            start.append(v)
            def h(i):
                x = S.fresh_int('left')
                S.requires(S.And(S.eq(x, start[0] - Ci(i)), S.le(0, x)))
                return x
            return (h, lambda v, i: S.And(S.eq(v, start[0] - Ci(i)), S.le(0, v)))
        CUTS['sample_f'][0].accumulate(S, pick_role)

        def excl(i):
            k = chosen()
            return S.at(c.ps, k) + D(i) - S.If(S.lt(k, i), S.at(c.ps, k), 0)
        CUTS['sample_f'][1].accumulate(S, roles(S, num=excl))
        CUTS['sample_f'][2].accumulate(S, roles(S, spec_=F))
    smp = m.BSDFSample(u[0], u[1], u[2])
    r = b.sample_f(wo, smp, m.BDFType(FLAGS[flags]))
    sam = [l for l in c.log if l[1] == 's']
    if S.decide(S.eq(C(c.N), 0)):
        S.ensures('nothing matches', S.And(S.eq(r[0], 0), r[1] is None, seq(S, r[3], 0)))
        S.ensures('nothing sampled', len(sam) == 0)
        return
    S.ensures('one component sampled', len(sam) == 1)
    k, _, lo, u0, u1 = sam[0]
    kt = c.ty(k)
    t = [x for x in range(3) if S.decide(S.eq(kt, x))][0]
    S.ensures('a matching component', t in codes)
    S.ensures('chosen by the component number', S.And(S.le(C(k), u[2] * C(c.N)), S.lt(u[2] * C(c.N), C(k) + 1)))
    S.ensures('sampled at the local direction with the direction numbers', S.And(S.veq(lo, b.w2l(wo)), S.eq(u0, u[0]), S.eq(u1, u[1])))
    S.ensures('type of the component', S.eq(r[2].v, bits(TYPES[t])))
    p = S.memo['p'] if S.memo['p'] is not None else S.at(c.ps, k)
    if S.decide(S.eq(p, 0)):
        S.ensures('no sample', S.And(S.eq(r[0], 0), r[1] is None, seq(S, r[3], 0)))
        return
    S.ensures('direction in the world', S.veq(r[1], wi))
    if TYPES[t].endswith('S'):
        S.ensures('specular: density of the component by the chance of choosing it', S.eq(r[0] * C(c.N), p))
        S.ensures('specular: value of the component', S.And(*[S.eq(r[3][i], S.memo['sf'][i]) for i in range(3)]))
    else:
        if S.symbolic:
            # C(i) = C(j) implies D(i) = D(j) for i <= j, by induction over j
            x, y, z = S.fresh_int('x'), S.fresh_int('y'), S.fresh_int('z')
            S.requires(S.And(S.le(0, x), S.le(x, y), S.lt(y, c.N)))
            hyp = S.And(S.le(C(x), C(y)), S.Implies(S.eq(C(x), C(y)), S.eq(D(x), D(y))))
            S.lemma('no match adds no density (step)', S.Implies(hyp, S.And(S.le(C(x), C(y + 1)), S.Implies(
                S.eq(C(x), C(y + 1)), S.eq(D(x), D(y + 1))))))
            for x, y in ((0, k), (k + 1, c.N)):
                S.requires(S.And(S.le(C(x), C(y)), S.Implies(S.eq(C(x), C(y)), S.eq(D(x), D(y)))))
        S.ensures('average density of the matching components', S.eq(r[0] * C(c.N), D(c.N)))
        S.ensures('sum of the matching components on the side', S.And(*[S.eq(r[3][i], F[i](c.N)) for i in range(3)]))
        S.ensures('evaluated at the local directions', S.And(*[S.And(S.veq(l[2], b.w2l(wo)), S.veq(l[3], lw))
                                                              for l in c.log if l[1] in ('f', 'pdf')]))


# ------------------------------------------------------------------ reflectances, bookkeeping
def strat(S):
    """the sample patterns drawn, as the caller receives them"""
    pats = []
    if S.symbolic:
        def pattern(nx, ny, jitter=True, rng=None):
            t = ('pattern', len(pats), nx, ny, rng)
            pats.append(t)
            return t
        S.stub('pytracer.sampler:stratified_sample_2d', pattern)
    return pats


@contract(P, [Q + '.rho_hd', Q + '.rho_hh'], **O2)
def reflectance(S):
    """the sum over the matching components, each given the local direction and patterns of the requested size"""
    m = S.mod(M)
    b, n, s, ng, dg = plain(S)
    c = components(S, m)
    install(S, b, c)
    wo, = dirs(S, 'wo')
    flags = S.choice('flags', ['ALL', 'no specular', 'R|D'])
    codes = matching(FLAGS[flags])
    q = S.int('sqrt_samples', 1, None if S.symbolic else 4)
    F = [total(S, 'F%d' % k, c, codes, lambda j, k=k: S.at(c.fs, j, k)) for k in range(3)]
    CUTS['rho_hd'][0].accumulate(S, roles(S, spec_=F))
    CUTS['rho_hh'][0].accumulate(S, roles(S, spec_=F))
    pats = strat(S)
    calls = []

    def rng(*a):
        calls.append(a)
        return S.get('pytracer:np').random.rand(*a)
    hd = S.choice('which', ['hd', 'hh']) == 'hd'
    fl = m.BDFType(FLAGS[flags])
    r = b.rho_hd(wo, fl, q, rng) if hd else b.rho_hh(fl, q, rng)
    S.ensures('sum of the matching components', S.And(*[S.eq(r[k], F[k](c.N)) for k in range(3)]))
    lw = b.w2l(wo)

    def pattern_ok(p):
        if S.symbolic:
            return S.And(p[0] == 'pattern', S.eq(p[2], q), S.eq(p[3], q), p[4] is rng)
        return p.shape == (q * q, 2) and len(calls) > 0
    for l in c.log:
        if l[1] == 'hd':
            S.ensures('local direction', S.veq(l[2], lw))
            S.ensures('stratified pattern', pattern_ok(l[3]))
        elif l[1] == 'hh':
            S.ensures('two stratified patterns of that many samples', S.And(S.eq(l[2], q * q), l[3] is not l[4],
                      pattern_ok(l[3]), pattern_ok(l[4])))


@contract(P, [Q + '.push_back', Q + '.n_BDF', Q + '.n_components'], n=20)
def push(S):
    """components are kept in the order they are added, and counted by the flags they match"""
    m = S.mod(M)
    b, n, s, ng, dg = plain(S)
    c = components(S, m)
    install(S, b, c)
    t = S.choice('new', [0, 1, 2])

    class X(m.BDF):
        def f(self, wo, wi):
            pass
    x = X(bits(TYPES[t]))
    flags = S.choice('flags', sorted(FLAGS))
    fl = m.BDFType(FLAGS[flags])
    b.push_back(x)
    S.ensures('one more', S.eq(b.n_BDF, c.N + 1))
    S.ensures('at the end', b.bdfs[c.N] is x)
    e = m.BSDF(dg, ng)
    e.push_back(x)
    S.ensures('counted exactly when it matches', S.eq(e.n_components(fl), 1 if t in matching(FLAGS[flags]) else 0))
    S.ensures('other BSDFs unaffected', S.eq(m.BSDF(dg, ng).n_BDF, 0))


@contract(P, [M + ':BSDFSample', M + ':BSDFSample.from_rand', M + ':BSDFSample.from_sample', M + ':BSDFSampleOffset'], n=20)
def numbers(S):
    """the random numbers of a sample: in order from a generator, or from the slots reserved in the sample pattern"""
    m = S.mod(M)
    u = [S.real('u%d' % k, 0, 1) for k in range(3)]
    a = m.BSDFSample(u[0], u[1], u[2])
    S.ensures('given', S.And(S.eq(a.u_dir[0], u[0]), S.eq(a.u_dir[1], u[1]), S.eq(a.u_com, u[2])))
    left = list(u)
    a = m.BSDFSample.from_rand(lambda: left.pop(0))
    S.ensures('drawn once each', S.And(not left, S.eq(a.u_dir[0], u[0]), S.eq(a.u_dir[1], u[1]), S.eq(a.u_com, u[2])))
    smp = S.mod('pytracer.sampler').Sample()
    k1, k2 = S.choice('before1', [0, 2]), S.choice('before2', [0, 1])
    for k in range(k1):
        smp.add_1d(7)
    for k in range(k2):
        smp.add_2d(8)
    num = 3
    off = m.BSDFSampleOffset(num, smp)
    S.ensures('slots reserved', S.And(off.nSamples == num, smp.n1D[off.offset_com] == num, smp.n2D[off.offset_dir] == num,
                                      off.offset_com == k1, off.offset_dir == k2, len(smp.n1D) == k1 + 1, len(smp.n2D) == k2 + 1))
    smp.oneD = [None] * k1 + [[S.real('c%d' % k, 0, 1) for k in range(num)]]
    smp.twoD = [None] * k2 + [[[S.real('x%d' % k, 0, 1), S.real('y%d' % k, 0, 1)] for k in range(num)]]
    i = S.choice('i', list(range(num)))
    a = m.BSDFSample.from_sample(smp, off, i)
    d = smp.twoD[k2][i]
    S.ensures('from the slots', S.And(S.eq(a.u_dir[0], d[0]), S.eq(a.u_dir[1], d[1]), S.eq(a.u_com, smp.oneD[k1][i])))
