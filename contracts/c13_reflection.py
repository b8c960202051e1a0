"""C13: Fresnel terms and bidirectional distribution functions (local frame, normal +z)."""
from pyvc.api import contract

R = 'pytracer.reflection'
U = R + '.utility'
F = R + '.fresnel'
B = R + '.bdf.bdf'
T = R + '.bdf.torrance'
P = 'C13'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)


def spec(S, n, lo=0, hi=1):
    """an arbitrary spectrum"""
    return S.mod('pytracer').Spectrum.create_from_list([S.real('%s%d' % (n, i), lo, hi) for i in range(3)])


def seq(S, a, b):
    return S.And(*[S.eq(a[i], b[i] if hasattr(b, '__len__') else b) for i in range(3)])


def offplane(S, *ws):
    """directions off the tangent plane"""
    for w in ws:
        S.requires(S.ne(w.z, 0))
        if not S.symbolic:
            S.requires(abs(w.z) > .02)


def same_side(S, wo, wi):
    S.requires(S.lt(0, wo.z * wi.z))


def eta(S, n):
    e = S.real(n, .2, 4)
    return e


# ------------------------------------------------------------------ Fresnel
def angles(S):
    """cosines of incidence and of transmission related by Snell's law (rational parametrisation of neither needed)"""
    ci, ct = S.real('ci', 0, 1), S.real('ct', 0, 1)
    ei, et = eta(S, 'ei'), eta(S, 'et')
    S.requires(S.lt(0, ci))
    if not S.symbolic:
        S.requires(ci > .01)
    return ci, ct, ei, et


@contract(P, U + ':fr_diel', tol=1e-6, div='strict')
def dielectric_reflectance(S):
    ci, ct, ei, et = angles(S)
    m = S.mod(U)
    r = m.fr_diel(ci, ct, ei, et)
    rp = S.div(et * ci - ei * ct, et * ci + ei * ct)
    rs = S.div(ei * ci - et * ct, ei * ci + et * ct)
    S.ensures('mean of the squared parallel and perpendicular amplitudes', S.eq(r, (rp * rp + rs * rs) / 2))


@contract(P, U + ':fr_diel', tol=1e-6, div='assume')
def dielectric_reflectance_laws(S):
    ci, ct, ei, et = angles(S)
    m = S.mod(U)
    r = m.fr_diel(ci, ct, ei, et)
    for n, a, b in (('parallel', et * ci, ei * ct), ('perpendicular', ei * ci, et * ct)):
        q = S.div(a - b, a + b)
        S.lemma(n + ' amplitude', S.le(q * q, 1))
    S.ensures('between nothing and everything', S.between(0, r, 1))
    S.ensures('the same from the other side', S.eq(m.fr_diel(ct, ci, et, ei), r))


@contract(P, U + ':fr_cond', tol=1e-6, div='strict')
def conductor_reflectance(S):
    m = S.mod(U)
    c = S.real('c', 0, 1)
    n, k = spec(S, 'n', 0, 4), spec(S, 'k', 0, 6)
    for i in range(3):
        S.requires(S.lt(0, n[i] * n[i] + k[i] * k[i]))
    r = m.fr_cond(c, n, k)
    for i in range(3):
        e = n[i] * n[i] + k[i] * k[i]
        t = e * c * c
        S.ensures('formula %d' % i, S.eq(r[i], (S.div(t - 2 * n[i] * c + 1, t + 2 * n[i] * c + 1) +
                                             S.div(e - 2 * n[i] * c + c * c, e + 2 * n[i] * c + c * c)) / 2))


@contract(P, U + ':fr_cond', tol=1e-6, div='assume')
def conductor_range(S):
    m = S.mod(U)
    c = S.real('c', 0, 1)
    n, k = S.real('n', 0, 4), S.real('k', 0, 6)
    S.requires(S.lt(0, n * n + k * k))
    r = m.fr_cond(c, n, k)
    S.ensures('between nothing and everything', S.between(0, r, 1))


@contract(P, F + ':FresnelConductor.__call__', tol=1e-6, div='assume')
def conductor_two_sided(S):
    m = S.mod(F)
    c = S.real('c', -1, 1)
    n, k = spec(S, 'n', 0, 4), spec(S, 'k', 0, 6)
    for i in range(3):
        S.requires(S.lt(0, n[i] * n[i] + k[i] * k[i]))
    fr = m.FresnelConductor(n, k)
    S.ensures('a function of the absolute cosine', S.And(seq(S, fr(c), S.mod(U).fr_cond(S.abs(c), n, k)),
                                                         seq(S, fr(-c), fr(c))))


@contract(P, F + ':FresnelFullReflect.__call__', n=3)
def mirror_fresnel(S):
    c = S.real('c', -1, 1)
    S.ensures('everything is reflected', seq(S, S.mod(F).FresnelFullReflect()(c), 1))


def cosine(S, sq):
    """the nonnegative root of sq"""
    if not S.symbolic:
        return S.sqrt(sq)
    c = S.fresh('root', 0)
    S.rewrite(c * c, sq)
    S.sqrt_hint(c)
    return c


@contract(P, F + ':FresnelDielectric.__call__', **O)
def dielectric_snell(S):
    """the side is the sign of the cosine; total internal reflection exactly beyond the critical angle"""
    m = S.mod(F)
    c = S.real('c', -1, 1)
    ei, et = eta(S, 'ei'), eta(S, 'et')
    inside = S.decide(S.lt(c, 0))
    a, b = (et, ei) if inside else (ei, et)
    fr = m.FresnelDielectric(ei, et)
    s2 = S.div(a * a, b * b) * (1 - c * c)
    tir = S.decide(S.le(1, s2))
    ct = cosine(S, 1 - s2) if not tir else None
    r = fr(c)
    if tir:
        S.ensures('total internal reflection', S.eq(r, 1))
    else:
        S.ensures('reflectance at the refracted angle', S.eq(r, S.mod(U).fr_diel(S.abs(c), ct, a, b)))


@contract(P, F + ':FresnelDielectric.__call__', tol=1e-6, div='assume', sqrt='assume')
def dielectric_clamped(S):
    """cosines beyond the unit range by rounding count as normal incidence"""
    m = S.mod(F)
    up = S.bool('up')
    e = S.real('e', 0, .1)
    ei, et = eta(S, 'ei'), eta(S, 'et')
    fr = m.FresnelDielectric(ei, et)
    q = S.div(ei - et, ei + et)
    S.ensures('normal incidence', S.eq(fr(1 + e if up else -1 - e), q * q))


# ------------------------------------------------------------------ flags
@contract(P, [B + ':BDFType', B + ':BDF.match_flag'], n=1)
def flags(S):
    """all combinations of the five flags"""
    m = S.mod(B)
    t = m.BDFType
    S.ensures('distinct flags', sorted([t.REFLECTION, t.TRANSMISSION, t.DIFFUSE, t.GLOSSY, t.SPECULAR]) == [1, 2, 4, 8, 16])
    S.ensures('unions', t.ALL_TYPES == t.DIFFUSE | t.GLOSSY | t.SPECULAR and t.ALL_REFLECTION == t.ALL_TYPES | t.REFLECTION and
              t.ALL_TRANSMISSION == t.ALL_TYPES | t.TRANSMISSION and t.ALL == t.ALL_REFLECTION | t.ALL_TRANSMISSION == 31)
    ok = True
    lam = m.Lambertian(S.mod('pytracer').Spectrum(0.))
    for a in range(32):
        x = t(a)
        lam.type = t(a)
        ok = ok and bool(x) == (a != 0) and int(t(x).v) == a and int((~x).v) & 31 == 31 - a
        for b in range(32):
            y = t(b)
            ok = ok and int((x | y).v) == a | b and int((x & y).v) == a & b and int((x ^ y).v) == a ^ b
            ok = ok and int((x | b).v) == a | b and int((x & b).v) == a & b and int((x ^ b).v) == a ^ b
            sub = all(b >> i & 1 for i in range(5) if a >> i & 1)
            ok = ok and bool(lam.match_flag(y)) == sub and bool(lam.match_flag(b)) == sub
    S.ensures('mask algebra and matching are set algebra and inclusion', ok)


@contract(P, [B + ':BDF.__init__', B + ':BRDF2BTDF.__init__', B + ':ScaledBDF.__init__'], n=2)
def types(S):
    """every distribution function declares what it does"""
    m, rf = S.mod(B), S.mod(R)
    t = m.BDFType
    sp = spec(S, 's')
    fr = S.mod(F).FresnelFullReflect()
    d = rf.Blinn(S.num(3))
    lam = m.Lambertian(sp)
    for b, k in ((lam, t.REFLECTION | t.DIFFUSE), (rf.OrenNayar(sp, S.num(20)) if hasattr(rf, 'OrenNayar') else
                  S.mod(R + '.bdf.orennayar').OrenNayar(sp, S.num(20)), t.REFLECTION | t.DIFFUSE),
                 (m.SpecularReflection(sp, fr), t.REFLECTION | t.SPECULAR),
                 (m.SpecularTransmission(sp, S.num(1), S.num(1.5)), t.TRANSMISSION | t.SPECULAR),
                 (rf.Microfacet(sp, fr, d), t.REFLECTION | t.GLOSSY), (rf.FresnelBlend(sp, sp, d), t.REFLECTION | t.GLOSSY),
                 (m.BRDF2BTDF(lam), t.TRANSMISSION | t.DIFFUSE), (m.ScaledBDF(lam, sp), t.REFLECTION | t.DIFFUSE)):
        S.ensures(type(b).__name__, int(b.type.v) == k)
    S.ensures('wrapping leaves the wrapped type alone', int(lam.type.v) == t.REFLECTION | t.DIFFUSE)


# ------------------------------------------------------------------ specular
@contract(P, B + ':SpecularReflection', **O)
def mirror(S):
    m = S.mod(B)
    wo = S.unit('wo')
    offplane(S, wo)
    r, fr = spec(S, 'r'), spec(S, 'f')
    seen = []

    def fresnel(c):
        seen.append(c)
        return fr
    b = m.SpecularReflection(r, fresnel)
    pdf, wi, f = b.sample_f(wo, S.real('u1', 0, 1), S.real('u2', 0, 1))
    S.ensures('reflected about the normal', S.And(S.eq(wi.x, -wo.x), S.eq(wi.y, -wo.y), S.eq(wi.z, wo.z)))
    S.ensures('one direction with certainty', S.eq(pdf, 1))
    S.ensures('reflectance at the angle of incidence', S.And(len(seen) == 1, S.eq(seen[0], wo.z)))
    S.ensures('reflected fraction', S.And(*[S.eq(f[i] * S.abs(wi.z), fr[i] * r[i]) for i in range(3)]))
    w = S.unit('w')
    S.ensures('no other pair of directions', S.And(seq(S, b.f(wo, w), 0), S.eq(b.pdf(wo, w), 0)))


def refraction(S):
    m = S.mod(B)
    wo = S.unit('wo')
    offplane(S, wo)
    ei, et = eta(S, 'ei'), eta(S, 'et')
    t = spec(S, 't')
    b = m.SpecularTransmission(t, ei, et)
    inside = S.decide(S.lt(wo.z, 0))
    a, c = (et, ei) if inside else (ei, et)
    s2 = S.div(a * a, c * c) * (1 - wo.z * wo.z)
    tir = S.decide(S.le(1, s2))
    return m, b, wo, t, a, c, s2, tir


@contract(P, B + ':SpecularTransmission.sample_f', tol=1e-6, div='assume', sqrt='assume')
def refract(S):
    """Snell's law, total internal reflection exactly beyond the critical angle"""
    m, b, wo, t, a, c, s2, tir = refraction(S)
    pdf, wi, f = b.sample_f(wo, S.real('u1', 0, 1), S.real('u2', 0, 1))
    if tir:
        S.ensures('nothing passes', S.eq(pdf, 0))
        return
    S.ensures('one direction with certainty', S.eq(pdf, 1))
    S.ensures('Snell', S.And(S.eq(c * wi.x, -a * wo.x), S.eq(c * wi.y, -a * wo.y)))
    S.ensures('unit direction', S.eq(wi.z * wi.z, 1 - s2))
    S.ensures('to the other side', S.lt(wo.z * wi.z, 0))


@contract(P, B + ':SpecularTransmission.sample_f', tol=1e-6, div='assume', sqrt='assume')
def transmitted(S):
    m, b, wo, t, a, c, s2, tir = refraction(S)
    S.requires(not tir)
    fr = b.fresnel
    seen = []
    k = S.real('k', 0, 1)

    def fresnel(x):
        seen.append(x)
        return k
    b.fresnel = fresnel
    pdf, wi, f = b.sample_f(wo, S.num(0), S.num(0))
    S.ensures('reflectance at the angle of incidence', S.And(len(seen) == 1, S.eq(seen[0], wo.z)))
    S.ensures('fresnel term has the two indices', S.And(S.eq(fr.eta_i, b.ei), S.eq(fr.eta_t, b.et)))
    for i in range(3):
        S.ensures('transmitted fraction %d, scaled by the squared relative index' % i,
                  S.eq(f[i] * S.abs(wi.z) * a * a, c * c * (1 - k) * t[i]))
    w = S.unit('w')
    S.ensures('no other pair of directions', S.And(seq(S, b.f(wo, w), 0), S.eq(b.pdf(wo, w), 0)))


@contract(P, B + ':SpecularTransmission.sample_f', **O)
def refract_back(S):
    """refracting the refracted direction gives the direction back"""
    m = S.mod(B)
    wo = S.unit('wo')
    offplane(S, wo)
    ei, et = eta(S, 'ei'), eta(S, 'et')
    b = m.SpecularTransmission(spec(S, 't'), ei, et)
    b.fresnel = lambda c: S.num(0)
    pdf, wi, f = b.sample_f(wo, S.num(0), S.num(0))
    S.requires(S.lt(0, pdf))
    if not S.symbolic:
        S.requires(abs(wi.z) > 1e-3)
    else:
        S.requires(S.ne(wi.z, 0))
        S.sqrt_hint(S.abs(wo.z))
    pdf, w, f = b.sample_f(wi, S.num(0), S.num(0))
    S.ensures('possible', S.eq(pdf, 1))
    if S.symbolic and pdf == 0:
        return
    S.ensures('same direction', S.And(S.eq(w.x, wo.x), S.eq(w.y, wo.y), S.eq(w.z * w.z, wo.z * wo.z), S.lt(0, w.z * wo.z)))


# ------------------------------------------------------------------ diffuse
@contract(P, B + ':Lambertian', **O)
def lambertian(S):
    m = S.mod(B)
    wo, wi = S.unit('wo'), S.unit('wi')
    r = spec(S, 'r')
    b = m.Lambertian(r)
    f = b.f(wo, wi)
    S.ensures('constant', S.And(*[S.eq(f[i] * S.pi, r[i]) for i in range(3)]))
    S.ensures('reflectances', S.And(seq(S, b.rho_hd(wo, None), r), seq(S, b.rho_hh(3, None, None), r)))
    k = S.real('k', 0, 1)
    f = m.Lambertian(k).f(wo, wi)
    S.ensures('grey', S.And(*[S.eq(f[i] * S.pi, k) for i in range(3)]))
    S.ensures('the reflectance is not changed', seq(S, b.R, r))


@contract(P, [B + ':BDF.sample_f', B + ':BDF.pdf'], **O)
def cosine_sampling(S):
    m = S.mod(B)
    wo, w = S.unit('wo'), S.unit('w')
    offplane(S, wo)
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)
    b = m.Lambertian(spec(S, 'r'))
    r = b.pdf(wo, w)
    if S.decide(S.lt(0, wo.z * w.z)):
        S.ensures('density cos/pi on the side of wo', S.eq(r * S.pi, S.abs(w.z)))
    else:
        S.ensures('density 0 on the other side', S.eq(r, 0))
    g = S.mod('pytracer.montecarlo')
    if S.symbolic:
        c = S.unit('c')
        S.requires(S.le(0, c.z))
        seen = []
        V = S.mod('pytracer.geometry').Vector

        def warp(a, b):
            seen.append((a, b))
            return V(c.x, c.y, c.z)
        S.stub('pytracer.montecarlo.utility:cosine_sample_hemisphere', warp)
    else:
        c = g.cosine_sample_hemisphere(u1, u2)
    pdf, wi, f = b.sample_f(wo, u1, u2)
    if S.symbolic:
        S.ensures('one cosine distributed sample of the two numbers', S.And(len(seen) == 1, S.eq(seen[0][0], u1), S.eq(seen[0][1], u2)))
    s = S.If(S.lt(wo.z, 0), -1, 1)
    S.ensures('on the side of wo', S.And(S.eq(wi.x, c.x), S.eq(wi.y, c.y), S.eq(wi.z, s * c.z)))
    S.ensures('density and value of that direction', S.And(S.eq(pdf * S.pi, c.z), seq(S, f, b.f(wo, wi))))


class Probe(object):
    """a distribution function that records what it is asked"""


def probe(S, m, tag=''):
    out = spec(S, 'probe' + tag)
    p = S.real('pp' + tag, 0, 9)
    V = S.mod('pytracer.geometry').Vector
    w = S.unit('pw' + tag)

    class Bdf(m.BDF):
        def __init__(self, t):
            super(Bdf, self).__init__(t)
            self.log = []

        def f(self, wo, wi):
            self.log.append(('f', wo, wi))
            return out

        def pdf(self, wo, wi):
            self.log.append(('pdf', wo, wi))
            return p

        def sample_f(self, wo, u1, u2):
            self.log.append(('s', wo, u1, u2))
            return p, V(w.x, w.y, w.z), out

        def rho_hd(self, wo, samples):
            self.log.append(('hd', wo, samples))
            return out

        def rho_hh(self, n, a, b):
            self.log.append(('hh', n, a, b))
            return out
    return Bdf, out, p, w


@contract(P, [B + ':BRDF2BTDF', B + ':BRDF2BTDF.switch'], **O)
def btdf_adapter(S):
    m = S.mod(B)
    Bdf, out, p, w = probe(S, m)
    t = S.choice('t', [m.BDFType.REFLECTION | m.BDFType.GLOSSY, m.BDFType.TRANSMISSION | m.BDFType.DIFFUSE])
    b = Bdf(t)
    a = m.BRDF2BTDF(b)
    S.ensures('reflection and transmission swap', int(a.type.v) == t ^ 3)
    wo, wi = S.vec('wo'), S.vec('wi')
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)

    def flip(x, y):
        return S.And(S.eq(x.x, y.x), S.eq(x.y, y.y), S.eq(x.z, -y.z))
    s = S.snap([wo, wi])
    S.ensures('value', seq(S, a.f(wo, wi), out))
    S.ensures('density', S.eq(a.pdf(wo, wi), p))
    S.ensures('asked for the mirrored direction', S.And(*[S.And(S.veq(l[1], wo), flip(l[2], wi)) for l in b.log]))
    S.ensures('each asked once', [l[0] for l in b.log] == ['f', 'pdf'])
    pdf, d, f = a.sample_f(wo, u1, u2)
    S.ensures('sample mirrored', S.And(S.eq(pdf, p), flip(d, w), seq(S, f, out)))
    l = b.log[-1]
    S.ensures('sampled with the same numbers', S.And(l[0] == 's', S.veq(l[1], wo), S.eq(l[2], u1), S.eq(l[3], u2)))
    smp = object()
    S.ensures('reflectances forwarded', S.And(seq(S, a.rho_hd(wo, smp), out), seq(S, a.rho_hh(3, smp, None), out)))
    S.ensures('with their arguments', S.And(b.log[-2][1] is wo and b.log[-2][2] is smp, b.log[-1][1:] == (3, smp, None)))
    S.ensures('arguments unchanged', S.unchanged([wo, wi], s))


@contract(P, B + ':ScaledBDF', **O)
def scaled_adapter(S):
    m = S.mod(B)
    Bdf, out, p, w = probe(S, m)
    b = Bdf(m.BDFType.REFLECTION | m.BDFType.GLOSSY)
    sc = spec(S, 'sc', 0, 2)
    keep = [out[i] * 1 for i in range(3)]
    a = m.ScaledBDF(b, sc)
    wo, wi = S.vec('wo'), S.vec('wi')
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)

    def scaled(f):
        return S.And(*[S.eq(f[i], sc[i] * keep[i]) for i in range(3)])
    S.ensures('value scaled', scaled(a.f(wo, wi)))
    S.ensures('density kept', S.eq(a.pdf(wo, wi), p))
    S.ensures('asked for the same directions', S.And(*[S.And(S.veq(l[1], wo), S.veq(l[2], wi)) for l in b.log]))
    pdf, d, f = a.sample_f(wo, u1, u2)
    S.ensures('sample scaled', S.And(S.eq(pdf, p), S.veq(d, w), scaled(f)))
    l = b.log[-1]
    S.ensures('sampled with the same numbers', S.And(l[0] == 's', S.veq(l[1], wo), S.eq(l[2], u1), S.eq(l[3], u2)))
    smp = object()
    S.ensures('reflectances scaled', S.And(scaled(a.rho_hd(wo, smp)), scaled(a.rho_hh(3, smp, None))))
    S.ensures('wrapped value not changed', seq(S, out, keep))
    b.sample_f = lambda *k: (0., None, None)
    pdf, d, f = a.sample_f(wo, u1, u2)
    S.ensures('no sample where there is none', S.eq(pdf, 0) and d is None and f is None)


@contract(P, B + ':BDF.rho_hd', div='assume', tol=1e-6)
def reflectance_estimate(S):
    """the average of f |cos| / pdf over the samples, impossible samples counting 0"""
    m = S.mod(B)
    V = S.mod('pytracer.geometry').Vector
    n = S.choice('n', [1, 2, 3])
    wo = S.vec('w')
    ws = [S.unit('d%d' % i) for i in range(n)]
    ps = [S.real('p%d' % i, 0, 9) for i in range(n)]
    zero = [S.bool('z%d' % i) for i in range(n)]
    for i in range(n):
        S.requires(S.lt(0, ps[i]))
        S.requires(S.lt(.01, ps[i]))
        if zero[i]:
            ps[i] = S.num(0)
    fs = [spec(S, 'f%d' % i) for i in range(n)]
    smp = [[S.real('u%d' % i, 0, 1), S.real('v%d' % i, 0, 1)] for i in range(n)]
    log = []

    class Bdf(m.BDF):
        def f(self, wo, wi):
            return None

        def sample_f(self, w, u1, u2):
            i = len(log)
            log.append((w, u1, u2))
            return [ps[i], ws[i], fs[i]]
    b = Bdf(m.BDFType.REFLECTION)
    r = b.rho_hd(wo, smp)
    S.ensures('one sample per pair of numbers', S.And(len(log) == n, *[
        S.And(S.veq(l[0], wo), S.eq(l[1], smp[i][0]), S.eq(l[2], smp[i][1])) for i, l in enumerate(log)]))
    for k in range(3):
        e = S.num(0)
        for i in range(n):
            if not zero[i]:
                e = e + S.div(fs[i][k] * S.abs(ws[i].z), ps[i])
        S.ensures('average %d' % k, S.eq(r[k] * n, e))


@contract(P, B + ':BDF.rho_hh', div='assume', tol=1e-6)
def hemispherical_estimate(S):
    """the average of f |cos| |cos| / (pi pdf pdf)"""
    m = S.mod(B)
    V = S.mod('pytracer.geometry').Vector
    n = S.choice('n', [1, 2])
    wo = [S.unit('o%d' % i) for i in range(n)]
    ws = [S.unit('d%d' % i) for i in range(n)]
    ps = [S.real('p%d' % i, .01, 9) for i in range(n)]
    fs = [spec(S, 'f%d' % i) for i in range(n)]
    s1 = [[S.real('a%d' % i, 0, 1), S.real('b%d' % i, 0, 1)] for i in range(n)]
    s2 = [[S.real('u%d' % i, 0, 1), S.real('v%d' % i, 0, 1)] for i in range(n)]
    log, warps = [], []

    class Bdf(m.BDF):
        def f(self, wo, wi):
            return None

        def sample_f(self, w, u1, u2):
            i = len(log)
            log.append((w, u1, u2))
            return [ps[i], ws[i], fs[i]]
    if S.symbolic:
        def warp(a, b):
            i = len(warps)
            warps.append((a, b))
            return wo[i]
        S.stub('pytracer.montecarlo.utility:uniform_sample_hemisphere', warp)
        h = wo
    else:
        h = [S.mod('pytracer.montecarlo').uniform_sample_hemisphere(*s1[i]) for i in range(n)]
    r = Bdf(m.BDFType.REFLECTION).rho_hh(n, s1, s2)
    if S.symbolic:
        S.ensures('outgoing directions from the first samples', S.And(len(warps) == n, *[
            S.And(S.eq(l[0], s1[i][0]), S.eq(l[1], s1[i][1])) for i, l in enumerate(warps)]))
    S.ensures('incoming directions from the second samples', S.And(len(log) == n, *[
        S.And(S.veq(l[0], h[i]), S.eq(l[1], s2[i][0]), S.eq(l[2], s2[i][1])) for i, l in enumerate(log)]))
    for k in range(3):
        e = S.num(0)
        for i in range(n):
            e = e + S.div(fs[i][k] * S.abs(ws[i].z) * S.abs(h[i].z) * 2, ps[i])
        S.ensures('average %d' % k, S.eq(r[k] * n, e))


# ------------------------------------------------------------------ rough diffuse
ON = R + '.bdf.orennayar'


@contract(P, [ON + ':OrenNayar.__init__'], tol=1e-6)
def oren_nayar_constants(S):
    m = S.mod(ON)
    d = S.real('d', 0, 90)
    r = spec(S, 'r')
    b = m.OrenNayar(r, d)
    s = d * S.pi / 180
    S.ensures('A', S.eq((1 - b.A) * 2 * (s * s + S.num('.33')), s * s))
    S.ensures('B', S.eq(b.B * (s * s + S.num('.09')), S.num('.45') * s * s))
    S.ensures('smooth surfaces are Lambertian', S.Implies(S.eq(d, 0), S.And(S.eq(b.A, 1), S.eq(b.B, 0))))


def oren(S):
    m = S.mod(ON)
    b = m.OrenNayar(spec(S, 'r'), S.num(20))
    b.A, b.B = S.real('A', .5, 1), S.real('B', 0, .45)
    return b


@contract(P, ON + ':OrenNayar.f', tol=1e-6, div='assume', sqrt='assume')
def oren_nayar_laws(S):
    """not negative, reciprocal, not above the diffuse bound when B = 0"""
    b = oren(S)
    wo, wi = S.unit('wo'), S.unit('wi')
    offplane(S, wo, wi)
    f = b.f(wo, wi)
    g = b.f(wi, wo)
    for i in range(3):
        S.ensures('not negative %d' % i, S.le(0, f[i]))
        S.ensures('reciprocal %d' % i, S.eq(f[i], g[i]))


@contract(P, ON + ':OrenNayar.f', **O)
def oren_nayar_formula(S):
    """R/pi (A + B max(0, cos(phi_i - phi_o)) sin(alpha) tan(beta))"""
    b = oren(S)
    geo = S.mod('pytracer.geometry')
    z1, z2 = S.real('z1', -1, 1), S.real('z2', -1, 1)
    p1, p2 = S.real('p1', 0, 6.3), S.real('p2', 0, 6.3)
    e = S.num('.0001')
    for z in (z1, z2):
        S.requires(S.And(S.ne(z, 0), S.le(e, 1 - z * z)))
        if not S.symbolic:
            S.requires(abs(z) > .02)
    s1, s2 = cosine(S, 1 - z1 * z1), cosine(S, 1 - z2 * z2)
    S.requires(S.And(S.le(S.num('.001'), s1), S.le(S.num('.001'), s2)))
    wo = geo.Vector(s1 * S.cos(p1), s1 * S.sin(p1), z1)
    wi = geo.Vector(s2 * S.cos(p2), s2 * S.sin(p2), z2)
    f = b.f(wo, wi)
    c = S.cos(p1) * S.cos(p2) + S.sin(p1) * S.sin(p2)
    az = S.max(S.num(0), c)
    first = S.decide(S.le(S.abs(z1), S.abs(z2)))
    lo, hi = ((s1, z1), (s2, z2)) if first else ((s2, z2), (s1, z1))
    sa, tb = lo[0], S.div(hi[0], S.abs(hi[1]))
    for i in range(3):
        S.ensures('value %d' % i, S.eq(f[i] * S.pi, b.R[i] * (b.A + b.B * az * sa * tb)))


@contract(P, ON + ':OrenNayar.f', tol=1e-6, div='assume', sqrt='assume')
def oren_nayar_pole(S):
    """no azimuthal term when either direction is along the normal"""
    b = oren(S)
    geo = S.mod('pytracer.geometry')
    w = S.unit('w')
    offplane(S, w)
    n = geo.Vector(S.num(0), S.num(0), S.num(1 if S.bool('up') else -1))
    f = b.f(n, w) if S.bool('first') else b.f(w, n)
    S.ensures('A R / pi', S.And(*[S.eq(f[i] * S.pi, b.R[i] * b.A) for i in range(3)]))


# ------------------------------------------------------------------ microfacet distributions
@contract(P, [T + ':Blinn.__init__', T + ':Anisotropic.__init__'], n=50)
def exponents(S):
    m = S.mod(T)
    e, x, y = S.real('e', 0, 20000), S.real('x', 0, 20000), S.real('y', 0, 20000)
    b, a = m.Blinn(e), m.Anisotropic(x, y)
    for n, g, w in (('e', b.e, e), ('ex', a.ex, x), ('ey', a.ey, y)):
        S.ensures(n + ' limited to 10000', S.eq(g, S.min(w, S.num(10000))))


@contract(P, T + ':Blinn.D', **O)
def blinn_density(S):
    m = S.mod(T)
    wh = S.unit('h')
    e = S.real('e', 0, 60)
    offplane(S, wh)
    d = m.Blinn(e).D(wh)
    S.ensures('normalised power of the cosine', S.eq(d * 2 * S.pi, (e + 2) * S.pow(S.abs(wh.z), e)))


@contract(P, T + ':Blinn.D', **O)
def blinn_normalised(S):
    """the integral of D cos over the hemisphere is 1: its antiderivative in the cosine, F(c) = c^(e+2), has F(1) - F(0) = 1"""
    m = S.mod(T)
    geo = S.mod('pytracer.geometry')
    c, e = S.real('c', 0, 1), S.real('e', 0, 60)
    S.requires(S.And(S.lt(0, c), S.lt(c, 1)))
    if S.symbolic:
        # law of powers
        S.rewrite(S.pow(c, e + 2), c * c * S.pow(c, e))
        prim = S.diff(S.pow(c, e + 2), c)
    else:
        S.requires(.01 < c < .99)
        prim = ((c + 1e-6) ** (e + 2) - (c - 1e-6) ** (e + 2)) / 2e-6
    wh = geo.Vector(S.sqrt(1 - c * c), S.num(0), c)
    d = m.Blinn(e).D(wh)
    v = d * c * 2 * S.pi
    S.ensures('normalised', S.eq(v, prim) if S.symbolic else (None if abs(v - prim) < 1e-3 * max(1, abs(v)) else False))


@contract(P, [T + ':Blinn.pdf', T + ':Blinn.D'], **O)
def blinn_pdf(S):
    """density of the reflected direction: density of the half vector over 4 (wo . wh)"""
    m = S.mod(T)
    geo = S.mod('pytracer.geometry')
    wo, h = S.unit('wo'), S.unit('h')
    e = S.real('e', 0, 60)
    k = S.dot(wo, h)
    S.requires(S.lt(0, k))
    if not S.symbolic:
        S.requires(k > .02 and abs(h.z) > .02)
    S.requires(S.ne(h.z, 0))
    if S.symbolic:
        S.sqrt_hint(2, k)
    wi = geo.Vector(*[2 * k * h[i] - wo[i] for i in range(3)])
    r = m.Blinn(e).pdf(wo, wi)
    S.ensures('half vector density over 4 wo.wh', S.eq(r * 8 * S.pi * k, (e + 1) * S.pow(S.abs(h.z), e)))


@contract(P, T + ':Blinn.sample_f', **O)
def blinn_sample(S):
    """reflection about a half vector of density (e+1)/(2 pi) cos^e on the side of wo"""
    m = S.mod(T)
    geo = S.mod('pytracer.geometry')
    wo = S.unit('wo')
    offplane(S, wo)
    e = S.real('e', 0, 60)
    c, u2 = S.real('c', 0, 1), S.real('u2', 0, 1)
    S.requires(S.And(S.lt(0, c), S.lt(c, 1)))
    if not S.symbolic:
        S.requires(.05 < c < .99)
    u1 = S.pow(c, e + 1)
    if S.symbolic:
        S.rewrite(S.pow(c, e + 1), c * S.pow(c, e))
        du1 = S.diff(S.pow(c, e + 1), c)
    else:
        du1 = (e + 1) * c ** e
    s = cosine(S, 1 - c * c)
    b = m.Blinn(e)
    pdf, wi = b.sample_f(wo, u1, u2)
    h = [s * S.cos(2 * S.pi * u2), s * S.sin(2 * S.pi * u2), c]
    if S.decide(S.lt(wo.z, 0)):
        h = [-x for x in h]
    k = S.dot(wo, h)
    S.ensures('reflected about the half vector', S.And(*[S.eq(wi[i], 2 * k * h[i] - wo[i]) for i in range(3)]))
    if S.decide(S.lt(0, k)):
        S.ensures('reciprocal of the area element of the warp', S.eq(pdf * 8 * S.pi * k, du1))
        if not S.symbolic:
            S.requires(k > .02)
            S.ensures('same as the density function', S.eq(b.pdf(wo, wi), pdf))
    else:
        S.ensures('impossible', S.eq(pdf, 0))


def expo(S, a, h):
    """exponent of the anisotropic distribution at half vector h (off the pole)"""
    return S.div(a.ex * h[0] * h[0] + a.ey * h[1] * h[1], 1 - h[2] * h[2])


def aniso(S):
    m = S.mod(T)
    return m.Anisotropic(S.real('ex', 0, 60), S.real('ey', 0, 60))


def offpole(S, h):
    S.requires(S.And(S.ne(h.z, 0), S.ne(h.z * h.z, 1)))
    if not S.symbolic:
        S.requires(.02 < abs(h.z) < .999)


@contract(P, T + ':Anisotropic.D', **O)
def anisotropic_density(S):
    a = aniso(S)
    h = S.unit('h')
    offpole(S, h)
    d = a.D(h)
    S.ensures('formula', S.eq(d * 2 * S.pi, S.sqrt((a.ex + 2) * (a.ey + 2)) * S.pow(S.abs(h.z), expo(S, a, h))))


@contract(P, T + ':Anisotropic.pdf', **O)
def anisotropic_pdf(S):
    a = aniso(S)
    geo = S.mod('pytracer.geometry')
    wo, h = S.unit('wo'), S.unit('h')
    offpole(S, h)
    k = S.dot(wo, h)
    S.requires(S.lt(0, k))
    if not S.symbolic:
        S.requires(k > .02)
    else:
        S.sqrt_hint(2, k)
    wi = geo.Vector(*[2 * k * h[i] - wo[i] for i in range(3)])
    r = a.pdf(wo, wi)
    S.ensures('half vector density over 4 wo.wh',
              S.eq(r * 8 * S.pi * k, S.sqrt((a.ex + 1) * (a.ey + 1)) * S.pow(S.abs(h.z), expo(S, a, h))))


def stretched(S, ex, ey, q):
    """azimuth in the first quadrant for the number q in [0, 1): tan(phi) = sqrt((ex + 1) / (ey + 1)) tan(pi q / 2)"""
    t = S.div(S.sin(S.pi * q / 2), S.cos(S.pi * q / 2))
    return S.sqrt(S.div(ex + 1, ey + 1)) * t


@contract(P, T + ':Anisotropic.sample_f', weight=4, **O)
def anisotropic_sample(S):
    """mirrored quadrants; in each tan(phi) is stretched and the cosine is a power of the second number"""
    a = aniso(S)
    wo = S.unit('wo')
    offplane(S, wo)
    q, c = S.real('q', 0, 1), S.real('c', 0, 1)
    S.requires(S.And(S.lt(0, q), S.lt(q, 1), S.lt(0, c), S.lt(c, 1)))
    if not S.symbolic:
        S.requires(.01 < q < .99 and .05 < c < .99)
        if S.bool('iso'):
            a = S.mod(T).Anisotropic(a.ex, a.ex)
    quad = S.choice('quad', [0, 1, 2, 3])
    u1 = [q / 4, S.num('.5') - q / 4, S.num('.5') + q / 4, 1 - q / 4][quad]
    if S.decide(S.eq(a.ex, a.ey)):
        phi = S.pi * q / 2
    else:
        t = stretched(S, a.ex, a.ey, q)
        if S.symbolic:
            phi = S.fresh('phi', 0)
            from pyvc import sym
            S.rewrite(sym.atan_(t), phi)
        else:
            import math
            phi = math.atan(t)
    x, y = S.cos(phi), S.sin(phi)
    n = a.ex * x * x + a.ey * y * y
    u2 = S.pow(c, n + 1)
    s = cosine(S, 1 - c * c)
    pdf, wi = a.sample_f(wo, u1, u2)
    sx, sy = [(1, 1), (-1, 1), (-1, -1), (1, -1)][quad]
    h = [s * x * sx, s * y * sy, c]
    if S.decide(S.lt(wo.z, 0)):
        h = [-v for v in h]
    k = S.dot(wo, h)
    S.ensures('reflected about the half vector', S.And(*[S.eq(wi[i], 2 * k * h[i] - wo[i]) for i in range(3)]))
    if S.decide(S.lt(0, k)):
        S.ensures('half vector density over 4 wo.wh', S.eq(pdf * 8 * S.pi * k, S.sqrt((a.ex + 1) * (a.ey + 1)) * S.pow(c, n)))
        if not S.symbolic:
            S.requires(k > .02)
            S.ensures('same as the density function', S.eq(a.pdf(wo, wi), pdf))
    else:
        S.ensures('impossible', S.eq(pdf, 0))


@contract(P, T + ':Anisotropic.sample_f', symbolic_only=True, **O)
def anisotropic_warp_density(S):
    """lemma: the density of the half vectors of anisotropic_sample is the one its pdf uses, that is
    (dphi/dq)(dc/du2) sqrt((ex+1)(ey+1)) c^e / (2 pi) = 1/4 (one quadrant holds a quarter of the numbers)"""
    ex, ey = S.real('ex', 0, 60), S.real('ey', 0, 60)
    q, c = S.real('q', 0, 1), S.real('c', 0, 1)
    S.requires(S.And(S.lt(0, q), S.lt(q, 1), S.lt(0, c), S.lt(c, 1)))
    from pyvc import sym
    t = stretched(S, ex, ey, q)
    dphi = S.diff(sym.atan_(t), q)
    # sine and cosine squared of phi
    x2, y2 = S.div(1, 1 + t * t), S.div(t * t, 1 + t * t)
    n = S.real('n')
    S.rewrite(n, ex * x2 + ey * y2)
    du2 = (n + 1) * S.pow(c, n)                            # derivative of c^(n+1)
    lhs = dphi * S.sqrt((ex + 1) * (ey + 1)) * S.pow(c, n)
    S.ensures('densities', S.eq(S.div(lhs, 2 * S.pi), S.div(du2, 4)))


# ------------------------------------------------------------------ microfacet surfaces
def two_dirs(S, wiz=True):
    """directions wo, wi = reflection of wo about the half vector h (every pair with wi != -wo is of this form); k = wo.h = wi.h"""
    geo = S.mod('pytracer.geometry')
    wo, h = S.unit('wo'), S.unit('h')
    if S.symbolic:
        k = S.fresh('k')
        S.ideal(S.dot(wo, h), k)
        S.requires(S.And(S.lt(0, k), S.le(k, 1)))
        S.sqrt_hint(2, k)
    else:
        k = S.dot(wo, h)
        S.requires(k > .02)
    w = [2 * k * h[i] - wo[i] for i in range(3)]
    if S.symbolic:
        if wiz:
            z = S.fresh('wiz')
            S.ideal(z, w[2])
            w[2] = z
    wi = geo.Vector(*w)
    offplane(S, wo, wi)
    return wo, wi, h, k


def absd(S, x):
    return -x if S.decide(S.lt(x, 0)) else x


def mind(S, a, b):
    return a if S.decide(S.le(a, b)) else b


class Dist(object):
    """a microfacet distribution that records what it is asked"""

    def __init__(self, S):
        self.d, self.p = S.real('dist', 0, 9), S.real('dpdf', 0, 9)
        self.w = None
        self.log = []

    def D(self, wh):
        self.log.append(('D', wh))
        return self.d

    def sample_f(self, wo, u1, u2):
        self.log.append(('s', wo, u1, u2))
        return [self.p, self.w]

    def pdf(self, wo, wi):
        self.log.append(('pdf', wo, wi))
        return self.p


@contract(P, [T + ':Microfacet.f', T + ':Microfacet.G'], **O)
def microfacet_value(S):
    """D G F / (4 cos cos), with the half vector and the geometric attenuation of both directions"""
    m = S.mod(T)
    wo, wi, h, k = two_dirs(S, False)
    d = Dist(S)
    fr, r = spec(S, 'fr'), spec(S, 'r')
    seen = []

    def fresnel(c):
        seen.append(c)
        return fr
    b = m.Microfacet(r, fresnel, d)
    s = S.snap([wo, wi])
    f = b.f(wo, wi)
    S.ensures('distribution of the half vector', S.And(len(d.log) == 1, S.veq(d.log[0][1], h)))
    S.ensures('fresnel term of the angle with the half vector', S.And(len(seen) == 1, S.eq(seen[0], k)))
    a, c = absd(S, wo.z), absd(S, wi.z)
    g = b.G(wo, wi, S.mod('pytracer.geometry').Vector(*h))
    for i in range(3):
        S.ensures('value %d' % i, S.eq(f[i] * 4 * a * c, r[i] * fr[i] * d.d * g))
    S.ensures('directions unchanged', S.unchanged([wo, wi], s))


@contract(P, T + ':Microfacet.G', **O)
def microfacet_attenuation(S):
    m = S.mod(T)
    wo, wi, wh = S.unit('wo'), S.unit('wi'), S.unit('wh')
    if S.symbolic:
        k = S.fresh('k')
        S.ideal(S.dot(wo, wh), k)
    else:
        k = S.dot(wo, wh)
        S.requires(abs(k) > .01)
    S.requires(S.ne(k, 0))
    kk, a, c, n = absd(S, k), absd(S, wo.z), absd(S, wi.z), absd(S, wh.z)
    b = m.Microfacet(spec(S, 'r'), lambda c: S.num(1), Dist(S))
    g = b.G(wo, wi, wh)
    x, y = S.div(2 * n * a, kk), S.div(2 * n * c, kk)
    S.ensures('smallest of 1 and the two attenuations', S.And(S.le(g, 1), S.le(g, x), S.le(g, y), S.Or(S.eq(g, 1), S.eq(g, x), S.eq(g, y))))
    S.ensures('not negative', S.le(0, g))


@contract(P, T + ':Microfacet.f', feas_ms=0, shards=2, weight=5, **O)
def microfacet_laws(S):
    m = S.mod(T)
    geo = S.mod('pytracer.geometry')
    wo, wi, h, k = two_dirs(S, False)
    d = Dist(S)
    args = []
    b = m.Microfacet(spec(S, 'r'), lambda c: (args.append(c), S.num(.5))[1], d)
    f, g = b.f(wo, wi), b.f(wi, wo)
    S.ensures('same half vector and angle both ways', S.And(S.veq(d.log[0][1], d.log[1][1]), S.eq(args[0], args[1])))
    S.ensures('reciprocal', S.And(*[S.eq(f[i], g[i]) for i in range(3)]))
    S.ensures('not negative', S.And(*[S.le(0, f[i]) for i in range(3)]))


@contract(P, T + ':Microfacet.f', **O)
def microfacet_degenerate(S):
    """nothing along the tangent plane, nor for opposite directions"""
    m = S.mod(T)
    geo = S.mod('pytracer.geometry')
    d = Dist(S)
    w, v = S.unit('w'), S.unit('v')
    b = m.Microfacet(spec(S, 'r'), lambda c: S.num(1), d)
    case = S.choice('case', ['opposite', 'wi', 'wo'])
    if case == 'opposite':
        f = b.f(w, geo.Vector(-w.x, -w.y, -w.z))
    else:
        a = S.real('a', 0, 6.3)
        g = geo.Vector(S.cos(a), S.sin(a), S.num(0))
        f = b.f(w, g) if case == 'wi' else b.f(g, w)
    S.ensures('zero', seq(S, f, 0))


@contract(P, [T + ':Microfacet.sample_f', T + ':Microfacet.pdf'], **O)
def microfacet_sampling(S):
    """samples and density of the distribution, restricted to the side of wo"""
    m = S.mod(T)
    geo = S.mod('pytracer.geometry')
    wo, w = S.unit('wo'), S.unit('w')
    offplane(S, wo)
    d = Dist(S)
    d.w = geo.Vector(w.x, w.y, w.z)
    b = m.Microfacet(spec(S, 'r'), lambda c: S.num(1), d)
    r = b.pdf(wo, w)
    same = S.decide(S.lt(0, wo.z * w.z))
    S.ensures('density', S.eq(r, d.p if same else 0))
    S.ensures('of these directions', S.And(*[S.And(S.veq(l[1], wo), S.veq(l[2], w)) for l in d.log]))
    out = spec(S, 'out')
    b.f = lambda x, y: (d.log.append(('f', x, y)), out)[1]
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)
    del d.log[:]
    pdf, wi, f = b.sample_f(wo, u1, u2)
    l = d.log[0]
    S.ensures('sampled with the two numbers', S.And(S.veq(l[1], wo), S.eq(l[2], u1), S.eq(l[3], u2)))
    S.ensures('direction and density of the distribution', S.And(S.veq(wi, w), S.eq(pdf, d.p)))
    S.ensures('value of that direction', seq(S, f, out if same else 0))
    S.ensures('value asked for the pair', S.And(*[S.And(S.veq(x[1], wo), S.veq(x[2], w)) for x in d.log[1:]]))


FB = R + '.bdf.fresnelblend'


@contract(P, [FB + ':FresnelBlend.f', FB + ':FresnelBlend.schlick'], **O)
def blend_value(S):
    m = S.mod(FB)
    wo, wi, h, k = two_dirs(S)
    d = Dist(S)
    rd, rs = spec(S, 'rd'), spec(S, 'rs')
    b = m.FresnelBlend(rd, rs, d)
    f = b.f(wo, wi)
    S.ensures('distribution of the half vector', S.And(len(d.log) == 1, S.veq(d.log[0][1], h)))
    a, c = absd(S, wo.z), absd(S, wi.z)

    def p5(x):
        return x * x * x * x * x
    sch = b.schlick(k)
    top = c if S.decide(S.le(a, c)) else a
    for i in range(3):
        S.ensures('schlick %d' % i, S.eq(sch[i], rs[i] + p5(1 - k) * (1 - rs[i])))
        diffuse = 28 * rd[i] * (1 - rs[i]) * (1 - p5(1 - a / 2)) * (1 - p5(1 - c / 2))
        S.ensures('value %d' % i, S.eq(f[i], S.div(diffuse, 23 * S.pi) + S.div(d.d * sch[i], 4 * k * top)))


@contract(P, FB + ':FresnelBlend.f', **O)
def blend_laws(S):
    m = S.mod(FB)
    wo, wi, h, k = two_dirs(S)
    d = Dist(S)
    rd, rs = spec(S, 'rd'), spec(S, 'rs')
    b = m.FresnelBlend(rd, rs, d)
    f, g = b.f(wo, wi), b.f(wi, wo)
    S.ensures('same half vector both ways', S.veq(d.log[0][1], d.log[1][1]))
    S.ensures('reciprocal', S.And(*[S.eq(f[i], g[i]) for i in range(3)]))


@contract(P, FB + ':FresnelBlend.f', **O)
def blend_opposite(S):
    m = S.mod(FB)
    geo = S.mod('pytracer.geometry')
    w = S.unit('w')
    f = m.FresnelBlend(spec(S, 'rd'), spec(S, 'rs'), Dist(S)).f(w, geo.Vector(-w.x, -w.y, -w.z))
    S.ensures('zero', seq(S, f, 0))


@contract(P, [FB + ':FresnelBlend.sample_f', FB + ':FresnelBlend.pdf'], **O)
def blend_sampling(S):
    """half of the numbers sample the cosine, half the distribution; the density is the average"""
    m = S.mod(FB)
    geo = S.mod('pytracer.geometry')
    wo, w = S.unit('wo'), S.unit('w')
    offplane(S, wo)
    d = Dist(S)
    d.w = geo.Vector(w.x, w.y, w.z)
    b = m.FresnelBlend(spec(S, 'rd'), spec(S, 'rs'), d)
    r = b.pdf(wo, w)
    same = S.decide(S.lt(0, wo.z * w.z))
    S.ensures('density', S.eq(r * 2, S.div(S.abs(w.z), S.pi) + d.p) if same else S.eq(r, 0))
    out = spec(S, 'out')
    b.f = lambda x, y: (d.log.append(('f', x, y)), out)[1]
    u1, u2 = S.real('u1', 0, 1), S.real('u2', 0, 1)
    del d.log[:]
    low = S.decide(S.lt(u1, S.num(.5)))
    if low:
        seen = []
        if S.symbolic:
            c = S.unit('c')
            S.requires(S.le(0, c.z))
            S.stub('pytracer.montecarlo.utility:cosine_sample_hemisphere',
                   lambda p, q: (seen.append((p, q)), geo.Vector(c.x, c.y, c.z))[1])
        else:
            c = S.mod('pytracer.montecarlo').cosine_sample_hemisphere(2 * u1, u2)
        pdf, wi, f = b.sample_f(wo, u1, u2)
        if S.symbolic:
            S.ensures('cosine sample of the stretched number', S.And(len(seen) == 1, S.eq(seen[0][0], 2 * u1), S.eq(seen[0][1], u2)))
        s = S.If(S.lt(wo.z, 0), -1, 1)
        S.ensures('on the side of wo', S.And(S.eq(wi.x, c.x), S.eq(wi.y, c.y), S.eq(wi.z, s * c.z)))
        S.ensures('density and value', S.And(S.eq(pdf, b.pdf(wo, wi)), seq(S, f, out)))
    else:
        pdf, wi, f = b.sample_f(wo, u1, u2)
        l = d.log[0]
        S.ensures('distribution sample of the stretched number', S.And(S.veq(l[1], wo), S.eq(l[2], 2 * u1 - 1), S.eq(l[3], u2)))
        S.ensures('direction', S.veq(wi, w))
        if same:
            S.ensures('density and value', S.And(S.eq(pdf, r), seq(S, f, out)))
        else:
            S.ensures('nothing on the other side', seq(S, f, 0))
    S.ensures('value asked for the pair', S.And(*[S.And(S.veq(x[1], wo), S.veq(x[2], wi)) for x in d.log if x[0] == 'f']))


# ------------------------------------------------------------------ measured surfaces
MS = R + '.bdf.measured'


@contract(P, U + ':brdf_remap', tol=1e-6, sqrt='assume')
def remap(S):
    """(sin sin, azimuth difference / pi, cos cos): symmetric, so measured surfaces are reciprocal"""
    m = S.mod(U)
    geo = S.mod('pytracer.geometry')
    wo, wi = S.unit('wo'), S.unit('wi')
    p, q = m.brdf_remap(wo, wi), m.brdf_remap(wi, wo)
    S.ensures('symmetric', S.veq(p, q))
    S.ensures('azimuth fraction in range', S.between(0, p.y, 1))
    S.ensures('cosines', S.eq(p.z, wo.z * wi.z))
    S.ensures('sines', S.And(S.le(0, p.x), S.eq(p.x * p.x, (1 - wo.z * wo.z) * (1 - wi.z * wi.z))))
    a, b = geo.spherical_phi(wo), geo.spherical_phi(wi)
    t = p.y * S.pi
    S.ensures('smaller angle between the azimuths', S.Or(S.eq(t, a - b), S.eq(t, b - a), S.eq(t, a - b + 2 * S.pi), S.eq(t, b - a + 2 * S.pi)))


@contract(P, MS + ':IrIsotropicBRDF.f', **O)
def irregular(S):
    """weighted average of the samples around the remapped pair, in a ball large enough to hold three"""
    m = S.mod(MS)
    geo = S.mod('pytracer.geometry')
    wo, wi = S.unit('wo'), S.unit('wi')
    n = 3
    ps = [S.point('s%d' % i, 0, 1) for i in range(n)]
    vs = [spec(S, 'v%d' % i) for i in range(n)]
    late = S.choice('grow', [0, 1, 2])
    asked = []

    class Tree(object):
        def query_ball_point(self, p, r):
            asked.append((p, r))
            return [0, 1, 2] if len(asked) > late else [0]

    class Data(object):
        def __getitem__(self, k):
            return [samples[i] for i in k]
    samples = [m.IrIsotropicBRDFSample(ps[i], vs[i]) for i in range(n)]
    b = m.IrIsotropicBRDF(Tree(), Data())
    if S.symbolic:
        q = S.point('q')
        pairs = []
        S.stub(U + ':brdf_remap', lambda x, y: (pairs.append((x, y)), q)[1])
    else:
        q = S.mod(U).brdf_remap(wo, wi)
    f = b.f(wo, wi)
    if S.symbolic:
        S.ensures('the pair is remapped', S.And(len(pairs) == 1, S.veq(pairs[0][0], wo), S.veq(pairs[0][1], wi)))
    S.ensures('around the remapped pair, growing', S.And(len(asked) == late + 1, *[
        S.veq(a[0], q) for a in asked] + [S.lt(asked[i][1], asked[i + 1][1]) for i in range(late)]))
    ws = [S.exp(-100 * sum([(ps[i][k] - q[k]) * (ps[i][k] - q[k]) for k in range(3)], S.num(0))) for i in range(n)]
    for k in range(3):
        tot = ws[0] * vs[0][k] + ws[1] * vs[1][k] + ws[2] * vs[2][k]
        S.ensures('average %d' % k, S.eq(f[k] * (ws[0] + ws[1] + ws[2]), tot))


@contract(P, MS + ':ReHalfangleBRDF.f', tol=1e-6, div='assume', sqrt='assume')
def regular_table(S):
    """the table cell of the half angle (by the root of its fraction), the difference angle and the difference azimuth"""
    m = S.mod(MS)
    geo = S.mod('pytracer.geometry')
    wo, wi = S.unit('wo'), S.unit('wi')
    h = [wo[i] + wi[i] for i in range(3)]
    S.requires(S.ne(S.dot(h, h), 0))
    if not S.symbolic:
        S.requires(S.dot(h, h) > .01)
    nh, nd, np_ = S.int('nh', 1, 90), S.int('nd', 1, 90), S.int('np', 1, 180)
    log = []

    class Level(object):
        def __init__(self, depth=0):
            self.depth = depth

        def __getitem__(self, i):
            log.append(i)
            return Level(self.depth + 1) if self.depth < 2 else S.mod('pytracer').Spectrum.create_from_list([S.num(.25), S.num(.5), S.num(.75)])
    b = m.ReHalfangleBRDF(Level(), nh, nd, np_)
    angles = []
    if S.symbolic:
        a, d, p = S.fresh('th', 0), S.fresh('td', 0), S.fresh('ph', 0)
        S.requires(S.And(S.le(a, S.pi), S.le(d, S.pi), S.le(p, 2 * S.pi)))
        U_ = [a, d]
        S.stub('pytracer.geometry.utility:spherical_theta', lambda v: (angles.append(v), U_[(len(angles) - 1) % 2])[1])
        S.stub('pytracer.geometry.utility:spherical_phi', lambda v: p)
    f = b.f(wo, wi)
    S.ensures('table value', S.And(S.eq(f[0], S.num(.25)), S.eq(f[1], S.num(.5)), S.eq(f[2], S.num(.75))))
    if not S.symbolic:
        n = geo.normalize(geo.Vector(*h))
        a = geo.spherical_theta(n)
        U = S.mod(R + '.utility')
        cp, sp = U.cos_phi(n), U.sin_phi(n)
        x = geo.Vector(cp * n.z, sp * n.z, -U.sin_theta(n))
        y = geo.Vector(-sp, cp, 0.)
        w = geo.Vector(wi.dot(x), wi.dot(y), wi.dot(n))
        d, p = geo.spherical_theta(w), geo.spherical_phi(w)
    p2 = p - S.pi if S.decide(S.lt(S.pi, p)) else p

    def cell(i, x, n):
        return S.Or(S.And(S.le(0, i), S.le(i, n - 1), S.le(i, x), S.lt(x, i + 1)), S.And(S.eq(i, n - 1), S.le(n, x)))
    if len(log) == 3:
        S.ensures('half angle cell', cell(log[0], S.sqrt(S.div(a * 2, S.pi)) * nh, nh))
        S.ensures('difference angle cell', cell(log[1], S.div(d * 2, S.pi) * nd, nd))
        S.ensures('difference azimuth cell', cell(log[2], S.div(p2, S.pi) * np_, np_))
    S.ensures('three indices', len(log) == 3)
