"""C23: light transport: direct lighting estimates, choice of lights, specular bounces, surface integrators, the rendering loop."""
from pyvc import api
from pyvc.api import contract
from contracts.c15_spectra import rgb
from contracts.c17_lights import partial, same, Rec
from contracts.c18_volume import colour, each

U = 'pytracer.integrator.utility'
W = 'pytracer.integrator.surface.whitted'
D = 'pytracer.integrator.surface.direct'
PA = 'pytracer.integrator.surface.path'
R = 'pytracer.renderer.renderer'
G = 'pytracer.geometry'
LI = 'pytracer.light'
RE = 'pytracer.reflection'
P = 'C23'
O = dict(cancel=True, fork_ite=True, div='assume', sqrt='assume', tol=1e-6)
EPS = '0.00001'


def shade(S, name, opts=(False, True)):
    """a spectrum that is black, or has a sample of at least the tolerance"""
    if len(opts) > 1 and S.choice(name + ' black', list(opts)):
        return colour(S, lambda k: S.num(0) if S.symbolic else 0.), True
    c = rgb(S, name, .1, 2)
    S.requires(S.Or(*[S.le(S.num(EPS), c[k]) for k in range(3)]))
    return c, False


def cosine(S, w, n):
    return S.abs(S.dot(w, n))


def typ(S, v):
    return S.mod(RE).BDFType(v)


def kinds(S):
    """type of a sampled reflection: specular or not"""
    t = S.mod(RE).BDFType
    s = S.choice('specular', [False, True])
    return (typ(S, t.REFLECTION | (t.SPECULAR if s else t.DIFFUSE))), s


# ------------------------------------------------------------------ one light
@contract(P, [U + ':estimate_direct'], weight=3, **O)
def direct(S):
    """light sampled and reflection sampled estimates with the power heuristic; delta lights by light sampling only, specular reflection by its own sampling
    only; occluded, black or impossible samples add nothing; nothing that is passed is changed"""
    g = S.mod(G)
    half = S.choice('half', ['light', 'reflection'])
    delta = S.choice('delta', [False, True]) if half == 'light' else False
    p, n, wo = S.point('p', -2, 2), S.normal('n', -1, 1), S.vec('wo', -1, 1)
    eps, time = S.real('eps', 0, .1), S.real('time', 0, 2)
    flags, lsmp, bsmp, rng, ren = object(), object(), object(), object(), None
    one, none = colour(S, lambda k: S.num(1) if S.symbolic else 1.), colour(S, lambda k: S.num(0) if S.symbolic else 0.)
    wl = S.vec('wl', -1, 1)
    wb = S.vec('wb', -1, 1)
    Tl, Tb = rgb(S, 'Tl', 0, 1), rgb(S, 'Tb', 0, 1)
    # light sampling
    if half == 'light':
        Li, liblack = shade(S, 'Li')
        fl, flblack = (none, True) if liblack else shade(S, 'fl')
        open_ = False if flblack else S.choice('unoccluded', [True, False])
        pl = S.real('pl', .1, 2) if liblack or S.choice('possible', [True, False]) else S.num(0) if S.symbolic else 0.
        pbl = S.real('pbl', 0, 2)
        S.requires(S.And(S.le(0, pbl), S.le(0, pl)))
    else:
        Li, liblack, fl, flblack, open_, pl, pbl = none, True, none, True, False, S.num(1) if S.symbolic else 1., S.num(0) if S.symbolic else 0.
    # reflection sampling
    st, spec = kinds(S) if half == 'reflection' else (typ(S, 1), False)
    fb, fbblack = shade(S, 'fb') if half == 'reflection' else (none, True)
    pb = S.real('pb', .1, 2) if fbblack or S.choice('reflection possible', [True, False]) else S.num(0) if S.symbolic else 0.
    plb = S.real('plb', .1, 2) if fbblack or spec or S.choice('light reachable', [True, False]) else S.num(0) if S.symbolic else 0.
    S.requires(S.And(S.le(0, pb), S.le(0, plb)))
    event = S.choice('reflected ray', ['light', 'other', 'nothing']) if half == 'reflection' and not fbblack else 'nothing'
    seen, seenblack = shade(S, 'seen') if half == 'reflection' and not fbblack else (none, True)
    log = []
    snap = [S.snap(x) for x in (Li, fl, fb, seen, p, n, wo)]

    class Light(object):
        def sample_l(self, p_, eps_, smp, tm):
            S.ensures('light sampled from the point', p_ is p and smp is lsmp and S.truth(S.And(S.eq(eps_, eps), S.eq(tm, time))))
            return [Li, wl, pl, vis]

        def is_delta_light(self):
            return delta

        def pdf(self, p_, w):
            S.ensures('density of the light for the reflected direction', S.And(p_ is p, same(S, w, wb)))
            return plb

        def le(self, ray):
            check_ray(ray)
            S.ensures('surroundings only when nothing is hit', event == 'nothing')
            return seen
    light = Light()

    def check_ray(ray):
        S.ensures('reflected ray', S.And(same(S, ray.o, p), same(S, ray.d, wb), S.eq(ray.mint, eps), S.eq(ray.time, time), S.eq(ray.depth, 0), not S.isnum(ray.maxt) if S.symbolic else ray.maxt > 1e300))

    def intersect(ray, isect=None):
        check_ray(ray)
        log.append('traced')
        if event == 'nothing':
            return False
        isect.primitive = Rec(get_area_light=lambda: light if event == 'light' else Light())
        isect.le = lambda w: (S.ensures('emission towards the point', same(S, w, [-wb[i] for i in range(3)])), seen)[1]
        return True

    def visible(sc):
        S.ensures('occlusion in the scene', sc is scene)
        return open_
    vis = Rec(unoccluded=visible, transmittance=lambda sc, r, smp, rg: (S.ensures('shadow ray attenuation', sc is scene and r is ren), Tl)[1])
    scene = Rec(intersect=intersect)
    ren = Rec(transmittance=lambda sc, ray, smp, rg: (check_ray(ray), S.ensures('reflected ray attenuation', sc is scene), Tb)[2])

    def value(o, i, *fg):
        S.ensures('reflection of the pair', S.And(same(S, o, wo), same(S, i, wl), fg == (flags,)))
        return fl

    def density(o, i, *fg):
        S.ensures('density of the pair', S.And(same(S, o, wo), same(S, i, wl), fg == (flags,)))
        return pbl

    def sample_f(o, smp, *fg):
        S.ensures('reflection sampled', S.And(same(S, o, wo), smp is bsmp, fg == (flags,)))
        return [pb, wb, st, fb]
    bsdf = Rec(f=value, pdf=density, sample_f=sample_f)
    out = S.get(U + ':estimate_direct')(scene, ren, light, p, n, wo, eps, time, bsdf, lsmp, bsmp, flags, rng)

    def heuristic(a, b):
        return S.div(a * a, a * a + b * b)
    lit = S.And(not liblack, not flblack, open_, S.lt(0, pl))
    if half == 'light':
        if S.decide(lit):
            w = 1 if delta else heuristic(pl, pbl)
            S.ensures('light sampling', each(S, out, lambda k: S.div(fl[k] * Li[k] * Tl[k] * cosine(S, wl, n) * w, pl)))
        else:
            S.ensures('impossible, black and occluded samples', each(S, out, lambda k: 0))
    else:
        lit = S.And(not fbblack, S.lt(0, pb), S.Or(spec, S.lt(0, plb)), event != 'other', not seenblack)
        if S.decide(lit):
            w = 1 if spec else heuristic(pb, plb)
            S.ensures('reflection sampling', each(S, out, lambda k: S.div(fb[k] * seen[k] * Tb[k] * cosine(S, wb, n) * w, pb)))
        else:
            S.ensures('reflection that cannot reach the light', each(S, out, lambda k: 0))
        S.ensures('traced once', S.Implies(S.And(not fbblack, S.lt(0, pb), S.Or(spec, S.lt(0, plb))), log == ['traced']))
    S.ensures('arguments and emission unchanged', S.And(*[S.unchanged(x, s) for x, s in zip((Li, fl, fb, seen, p, n, wo), snap)]))


# ------------------------------------------------------------------ several lights
class Bulb(object):
    """a delta light: its estimate is its colour for the sample (by contract of estimate_direct, which is stubbed symbolically)"""

    def __init__(self, S, k, ns=1, est=None):
        self.S, self.k, self.ns, self.est, self.calls = S, k, ns, est, 0

    def power(self, scene):
        return self.est(0)

    def sample_l(self, p, eps, smp, time):
        g = self.S.mod(G)
        c = self.est(self.calls, smp)
        self.calls += 1
        return [c, g.Vector(0., 0., 1.), 1., Rec(unoccluded=lambda sc: True, transmittance=lambda *a: self.S.mod('pytracer').Spectrum(1.))]

    def is_delta_light(self):
        return True


ALL = [api.cut(U, 'uniform_sample_all_lights', k) for k in range(2)]
WHAT = ('scene', 'renderer', 'light', 'p', 'n', 'wo', 'r_eps', 'time', 'bsdf', 'light_smp', 'bsdf_smp', 'flags', 'rng')


def situation(S):
    g = S.mod(G)
    return (S.point('p', -2, 2), S.normal('n', -1, 1) if S.symbolic else g.Normal(0., 0., 1.), S.vec('wo', -1, 1), S.real('eps', 0, .1), S.real('time', 0, 2),
            Rec(f=lambda o, i, fl: S.mod('pytracer').Spectrum(1.)))


def passed(S, a, scene, ren, sit, rng):
    t = S.mod(RE).BDFType
    p, n, wo, eps, time, bsdf = sit
    return S.And(a['scene'] is scene, a['renderer'] is ren, a['p'] is p, a['n'] is n, a['wo'] is wo, a['bsdf'] is bsdf, S.eq(a['r_eps'], eps), S.eq(a['time'], time),
                 S.eq(typ(S, a['flags']).v, typ(S, t.ALL & ~t.SPECULAR).v))


def named(a, k):
    d = dict(zip(WHAT, a))
    d.update(k)
    return d


@contract(P, [U + ':uniform_sample_all_lights'], **O)
def all_lights(S):
    """every light, the mean of its estimates with the samples requested for it; any number of lights and samples"""
    sit = situation(S)
    p, n, wo, eps, time, bsdf = sit
    ren = object()
    mode = S.choice('samples', ['requested', 'random'])
    f = S.get(U + ':uniform_sample_all_lights')
    if not S.symbolic:
        N = int(S.int('N', 0, 4))
        cnt = [int(S.int('n%d' % i, 1, 4)) if mode == 'requested' else 1 for i in range(N)]
        est = [[rgb(S, 'E%d_%d' % (i, j), .1, 2) for j in range(cnt[i])] for i in range(N)]
        u = [[[S.real('u%d_%d_%d' % (i, j, k), 0, 1) for k in range(3)] for j in range(cnt[i])] for i in range(N)]

        def shine(i):
            def e(j, smp=None):
                if mode == 'requested':
                    S.ensures('sample of the request', smp.u_com == u[i][j][0] and list(smp.u_pos) == u[i][j][1:])
                return est[i][j].copy()
            return e
        scene = Rec(lights=[Bulb(S, i, cnt[i], shine(i)) for i in range(N)])
        smp = Rec(oneD=[[x[0] for x in u[i]] for i in range(N)], twoD=[[x[1:] for x in u[i]] for i in range(N)])
        lo = bo = None
        if mode == 'requested':
            lo = [Rec(nSamples=cnt[i], offset_com=i, offset_pos=i) for i in range(N)]
            bo = [Rec(nSamples=cnt[i], offset_com=i, offset_dir=i) for i in range(N)]
        out = f(scene, ren, p, n, wo, eps, time, bsdf, smp, lo, bo, lambda *a: .5)
        S.ensures('sum of the means', each(S, out, lambda k: sum(sum(e[k] for e in est[i]) / cnt[i] for i in range(N))))
        return
    N, top, one = S.int('N', 0), S.int('most', 1), S.int('requests', 1)
    cnt = S.array('cnt', N, sort='int', facts=lambda a, i: [S.And(S.le(1, a.at(i)), S.le(a.at(i), top))])
    lc, lp, bc, bd = [S.array(x, N, sort='int', facts=lambda a, i: [S.And(S.le(0, a.at(i)), S.lt(a.at(i), one))]) for x in ('lc', 'lp', 'bc', 'bd')]
    A, B = S.array('oneD', (one, top)), S.array('twoD', (one, top, 2))
    est = [S.array('E%d' % k, (N, top)) for k in range(3)]
    lights = S.list(N, lambda i: Bulb(S, i))
    scene = Rec(lights=lights)
    inner = []
    for k in range(3):
        depth = []

        def facts(a, i, j, k=k, depth=depth):
            r = [S.Implies(S.eq(j, 0), S.eq(a.at(i, 0), 0))] if not depth else []
            if not depth:
                depth.append(1)
                try:
                    r.append(S.Implies(S.And(S.le(0, j), S.lt(j, top)), S.eq(a.at(i, j + 1), a.at(i, j) + est[k].at(i, j))))
                finally:
                    depth.pop()
            return r
        inner.append(S.array('inner%d' % k, (N, top + 1), facts=facts))
    num = (lambda i: cnt.at(i)) if mode == 'requested' else (lambda i: 1)
    outer = [partial(S, 'outer%d' % k, N, lambda i, k=k: S.div(inner[k].at(i, num(i)), num(i))) for k in range(3)]
    drawn = []

    def rng(*a):
        drawn.append(S.fresh('draw'))
        return drawn[-1]

    def estimate(*a, **kw):
        a = named(a, kw)
        i, j = ALL[0].i, ALL[1].i
        S.ensures('estimate for the situation', passed(S, a, scene, ren, sit, rng), 'requires')
        S.ensures('of the light', a['light'] is lights[i], 'requires')
        l, b = a['light_smp'], a['bsdf_smp']
        if mode == 'requested':
            S.ensures('samples of the requests', S.And(S.eq(l.u_com, A.at(lc.at(i), j)), *[S.eq(l.u_pos[x], B.at(lp.at(i), j, x)) for x in range(2)]), 'requires')
            S.ensures('reflection samples of the requests', S.And(S.eq(b.u_com, A.at(bc.at(i), j)), *[S.eq(b.u_dir[x], B.at(bd.at(i), j, x)) for x in range(2)]), 'requires')
        else:
            got = [l.u_com, l.u_pos[0], l.u_pos[1], b.u_com, b.u_dir[0], b.u_dir[1]]
            S.ensures('fresh random numbers, each used once', len(drawn) >= 6 and all(any(x is d for d in drawn) for x in got) and len({id(x) for x in got}) == 6, 'requires')
        return colour(S, lambda k: est[k].at(i, j))
    S.stub(U + ':estimate_direct', estimate)
    ALL[0].accumulate(S, lambda name, v: ((lambda i: colour(S, lambda k: outer[k](i))), (lambda v, i: each(S, v, lambda k: outer[k](i)))) if hasattr(v, 'to_xyz') else None)
    ALL[1].accumulate(S, lambda name, v: ((lambda j: colour(S, lambda k: inner[k].at(ALL[0].i, j))), (lambda v, j: each(S, v, lambda k: inner[k].at(ALL[0].i, j)))) if hasattr(v, 'to_xyz') and S.decide(S.eq(v[0], 0)) and name != 'L' else keep(S, v))
    lo = bo = None
    if mode == 'requested':
        lo = S.list(N, lambda i: Rec(nSamples=cnt.at(i), offset_com=lc.at(i), offset_pos=lp.at(i)))
        bo = S.list(N, lambda i: Rec(nSamples=cnt.at(i), offset_com=bc.at(i), offset_dir=bd.at(i)))
    out = f(scene, ren, p, n, wo, eps, time, bsdf, Rec(oneD=A, twoD=B), lo, bo, rng)
    S.ensures('sum of the means', each(S, out, lambda k: outer[k](N)))


def keep(S, v):
    return None


@contract(P, [U + ':uniform_sample_one_light'], **O)
def one_light(S):
    """one light chosen uniformly by the number drawn or requested, its estimate times the number of lights; no lights, no light"""
    sit = situation(S)
    p, n, wo, eps, time, bsdf = sit
    ren = object()
    f = S.get(U + ':uniform_sample_one_light')
    E = rgb(S, 'E', .1, 2)
    which = S.real('which', 0, 1)
    S.requires(S.And(S.le(0, which), S.le(which, 1)))
    N = S.int('N', 0, 5)
    S.requires(S.le(0, N))
    N = int(N) if not S.symbolic else N
    chosen = S.choice('chosen', ['drawn', 'requested'])
    mode = S.choice('samples', ['requested', 'random'])
    A = [[which], [S.real('a1', 0, 1)], [S.real('a2', 0, 1)]]
    B = [[[S.real('b%d%d' % (i, j), 0, 1) for j in range(2)]] for i in range(3)]
    num = [which] if chosen == 'drawn' else []
    rest = []

    def rng(*a):
        if num:
            return num.pop()
        rest.append(S.fresh('draw') if S.symbolic else .3)
        return rest[-1]
    used = []
    if S.symbolic:
        lights = S.list(N, lambda i: Rec(k=i))
        S.stub(U + ':estimate_direct', lambda *a, **k: (used.append(named(a, k)), E)[1])
    else:
        lights = [Bulb(S, i, 1, lambda j, smp=None, i=i: (used.append((i, smp)), E.copy())[1]) for i in range(N)]
    scene = Rec(lights=lights)
    smp = Rec(oneD=A, twoD=B)
    kw = dict(rng=rng)
    if chosen == 'requested':
        kw['light_num_offset'] = 0
    if mode == 'requested':
        kw['light_offset'] = Rec(nSamples=1, offset_com=1, offset_pos=1)
        kw['bsdf_offset'] = Rec(nSamples=1, offset_com=2, offset_dir=2)
    out = f(scene, ren, p, n, wo, eps, time, bsdf, smp, **kw)
    if S.decide(S.eq(N, 0)):
        S.ensures('no lights', S.And(each(S, out, lambda k: 0), used == []))
        return
    S.ensures('times the number of lights', each(S, out, lambda k: E[k] * N))
    S.ensures('one estimate', len(used) == 1)
    if not S.symbolic:
        i, l = used[0]
        S.requires(abs(which * N - round(which * N)) > 1e-9)
        S.ensures('uniform choice', i == min(int(which * N), N - 1))
        if mode == 'requested':
            S.ensures('samples of the request', l.u_com == A[1][0] and list(l.u_pos) == B[1][0])
        return
    a = used[0]
    S.ensures('estimate for the situation', passed(S, a, scene, ren, sit, rng))
    k = a['light'].k
    S.ensures('uniform choice', S.And(S.le(k, which * N), S.Or(S.lt(which * N, k + 1), S.And(S.eq(k, N - 1), S.eq(which, 1)))))
    l, b = a['light_smp'], a['bsdf_smp']
    if mode == 'requested':
        S.ensures('samples of the request', S.And(S.eq(l.u_com, A[1][0]), *[S.eq(l.u_pos[x], B[1][0][x]) for x in range(2)]))
        S.ensures('reflection samples of the request', S.And(S.eq(b.u_com, A[2][0]), *[S.eq(b.u_dir[x], B[2][0][x]) for x in range(2)]))
    else:
        got = [l.u_com, l.u_pos[0], l.u_pos[1], b.u_com, b.u_dir[0], b.u_dir[1]]
        S.ensures('fresh random numbers, each used once', len(rest) >= 6 and all(any(x is d for d in rest) for x in got) and len({id(x) for x in got}) == 6)


POWERS = api.cut(U, 'compute_light_sampling_cdf', 0)


@contract(P, [U + ':compute_light_sampling_cdf'], **O)
def light_cdf(S):
    """the distribution over the luminance of the power of each light, in their order (any number of lights)"""
    f = S.get(U + ':compute_light_sampling_cdf')
    if not S.symbolic:
        N = int(S.int('N', 1, 5))
        E = [rgb(S, 'E%d' % i, .1, 2) for i in range(N)]
        scene = Rec(lights=[Bulb(S, i, 1, lambda j, i=i: E[i]) for i in range(N)])
        d = f(scene)
        S.ensures('luminance of the powers', len(d.func) == N and all(abs(d.func[i] - E[i].y()) < 1e-9 for i in range(N)))
        return
    N = S.int('N', 1)
    E = [S.array('E%d' % k, N) for k in range(3)]
    got = []
    S.stub('pytracer.montecarlo:Distribution1D', lambda p: got.append(p) or 'dist')
    scene = Rec(lights=S.list(N, lambda i: Rec(power=lambda sc: (S.ensures('power in the scene', sc is scene, 'requires'), colour(S, lambda k: E[k].at(i)))[1])))

    def lum(i):
        return colour(S, lambda k: E[k].at(i)).y()
    st = {}

    def havoc(loc, i):
        st['i'] = i
        out = {}
        for x in POWERS.names:
            if isinstance(loc.get(x), list):
                out[x] = st['list'] = S.list(i, lum)
        return out

    def check(loc, i):
        for x in POWERS.names:
            v = loc.get(x)
            if isinstance(v, list):
                S.ensures('starts empty', v == [], 'inv')
            elif v is st.get('list') and v is not None:
                S.ensures('one power for the light', S.And(len(v.new) == 1, S.eq(v.new[0], lum(st['i']))), 'inv')
    POWERS.use(S, havoc, check)
    S.ensures('distribution', f(scene) == 'dist' and len(got) == 1)
    j = S.int('j', 0)
    S.requires(S.lt(j, N))
    S.ensures('over the powers', S.And(S.eq(got[0].__vlen__(), N), S.eq(got[0][j], lum(j))))


# ------------------------------------------------------------------ specular bounces
def bounce(S, fn, kind):
    g = S.mod(G)
    t = S.mod(RE).BDFType
    d, p, n = S.vec('d', -1, 1), S.point('p', -2, 2), S.normal('n', -1, 1)
    ray = g.RayDifferential(S.point('o', -2, 2), d, 0., S.inf if S.symbolic else float('inf'), int(S.choice('depth', [0, 3])), S.real('time', 0, 2))
    diff = S.choice('differentials', [True, False])
    ray.has_differentials = diff
    rx, ry = S.vec('rx', -1, 1), S.vec('ry', -1, 1)
    ray.rxDirection, ray.ryDirection = rx, ry
    wi = S.vec('wi', -1, 1)
    f, black = shade(S, 'f')
    pdf = S.real('pdf', .1, 2) if black or S.choice('possible', [True, False]) else S.num(0) if S.symbolic else 0.
    S.requires(S.le(0, pdf))
    eta = S.real('eta', 1, 2)
    S.requires(S.lt(0, eta))
    rates = [S.real(x, -1, 1) for x in ('dudx', 'dvdx', 'dudy', 'dvdy')]
    nu, nv = S.normal('nu', -1, 1), S.normal('nv', -1, 1)
    px, py = S.vec('px', -1, 1), S.vec('py', -1, 1)
    dgs = Rec(p=p, nn=n, dndu=nu, dndv=nv, dudx=rates[0], dvdx=rates[1], dudy=rates[2], dvdy=rates[3])
    asked = []

    def sample_f(wo, smp, fl):
        asked.append((wo, smp, fl))
        return [pdf, wi, fl, f]
    bsdf = Rec(dgs=dgs, eta=eta, sample_f=sample_f)
    eps = S.real('eps', 0, .1)
    isect = Rec(rEps=eps, dg=Rec(dpdx=px, dpdy=py))
    Li = rgb(S, 'Li', 0, 2)
    scene, sample = object(), object()
    draws = []
    rng = lambda *a: (draws.append(S.fresh('draw') if S.symbolic else .1 * len(draws)), draws[-1])[1]
    traced = []
    T = colour(S, lambda k: S.num(7) if S.symbolic else 7.)
    ren = Rec(li=lambda sc, r, smp, i, rg=None: (traced.append((sc, r, smp, i)), (Li, T))[1])
    snaps = [(x, S.snap(x)) for x in (p, n, d, wi, f, rx, ry, nu, nv, px, py)]
    out = S.get(U + ':' + fn)(ray, bsdf, isect, ren, scene, sample, rng)
    S.ensures('sampled for the direction back', S.And(len(asked) == 1, same(S, asked[0][0], [-d[i] for i in range(3)]), S.eq(typ(S, asked[0][2]).v, typ(S, kind(t)).v)))
    smp = asked[0][1]
    got = [smp.u_com, smp.u_dir[0], smp.u_dir[1]]
    S.ensures('fresh random numbers, each used once', len({id(x) for x in got}) == 3 and all(any(x is y for y in draws) for x in got) if S.symbolic else True)
    cs = cosine(S, wi, n)
    lit = S.And(not black, S.lt(0, pdf), S.ne(cs, 0))
    if S.decide(lit):
        S.ensures('radiance of the bounce', each(S, out, lambda k: S.div(f[k] * Li[k] * cs, pdf)))
    else:
        S.ensures('nothing', each(S, out, lambda k: 0))
    S.ensures('arguments unchanged', S.And(*[S.unchanged(x, s) for x, s in snaps]))
    if not S.decide(lit):
        S.ensures('not traced', traced == [])
        return None
    S.ensures('traced once, into a record of its own', len(traced) == 1 and traced[0][0] is scene and traced[0][2] is sample and traced[0][3] is not isect)
    r = traced[0][1]
    S.ensures('ray of the bounce', S.And(same(S, r.o, p), same(S, r.d, wi), S.eq(r.mint, eps), S.eq(r.time, ray.time), r.depth == ray.depth + 1, not S.isnum(r.maxt) if S.symbolic else r.maxt > 1e300))
    S.ensures('differentials as the ray', bool(r.has_differentials) is diff)
    if not diff:
        return None
    S.ensures('offset origins', S.And(same(S, r.rxOrigin, [p[i] + px[i] for i in range(3)]), same(S, r.ryOrigin, [p[i] + py[i] for i in range(3)])))
    return dict(d=d, wi=wi, n=n, eta=eta, out=((r.rxDirection, rx, rates[0], rates[1]), (r.ryDirection, ry, rates[2], rates[3])), nu=nu, nv=nv)


@contract(P, [U + ':specular_reflect'], weight=2, **O)
def reflect(S):
    """mirror bounces: radiance, ray, and offset directions that are the first order change of the mirrored direction"""
    b = bounce(S, 'specular_reflect', lambda t: t.REFLECTION | t.SPECULAR)
    if b is None:
        return
    d, n = b['d'], b['n']
    for got, off, du, dv in b['out']:
        dn = [b['nu'][i] * du + b['nv'][i] * dv for i in range(3)]
        dw = [-(off[i] - d[i]) for i in range(3)]     # change of wo
        wo = [-d[i] for i in range(3)]
        # wi = 2 (wo.n) n - wo
        dot, ddot = S.dot(wo, n), S.dot(dw, n) + S.dot(wo, dn)
        for i in range(3):
            S.ensures('change of the mirrored direction', S.eq(got[i] - b['wi'][i], 2 * (ddot * n[i] + dot * dn[i]) - dw[i]))


@contract(P, [U + ':specular_transmit'], weight=2, **O)
def transmit(S):
    """refracted bounces: radiance, ray, and offset directions that are the first order change of the refracted direction (Snell's law)"""
    b = bounce(S, 'specular_transmit', lambda t: t.TRANSMISSION | t.SPECULAR)
    if b is None:
        return
    d, n, wi = b['d'], b['n'], b['wi']
    eta = S.div(1, b['eta']) if S.decide(S.le(0, -S.dot(d, n))) else b['eta']     # index outside over index inside, leaving swaps them
    # wi = eta d - mu n, mu = eta (d.n) - wi.n, (wi.n)^2 = 1 - eta^2 (1 - (d.n)^2)
    dot, out = S.dot(d, n), S.dot(wi, n)
    for got, off, du, dv in b['out']:
        dn = [b['nu'][i] * du + b['nv'][i] * dv for i in range(3)]
        dd = [off[i] - d[i] for i in range(3)]
        ddot = S.dot(dd, n) + S.dot(d, dn)
        mu = eta * dot - out
        dmu = eta * ddot - S.div(eta * eta * dot * ddot, out)
        for i in range(3):
            S.ensures('change of the refracted direction', S.eq(got[i] - wi[i], eta * dd[i] - dmu * n[i] - mu * dn[i]))


# ------------------------------------------------------------------ integrators
WHIT = api.cut(W, 'WhittedIntegrator.li', 0)


def hit_point(S, rng=None):
    g = S.mod(G)
    p, n, d = S.point('p', -2, 2), S.normal('n', -1, 1), S.vec('d', -1, 1)
    deep, most = S.int('depth', 0, 6), S.int('most', 0, 6)
    ray = g.RayDifferential(S.point('o', -2, 2), d, 0., S.inf if S.symbolic else float('inf'), deep, S.real('time', 0, 2))
    eps = S.real('eps', 0, .1)
    Le = rgb(S, 'Le', 0, 2)
    bsdf = Rec(dgs=Rec(p=p, nn=n))

    def le(w):
        S.ensures('emission towards the origin of the ray', same(S, w, [-d[i] for i in range(3)]))
        return Le
    isect = Rec(rEps=eps, get_bsdf=lambda r: (S.ensures('reflection for the ray', r is ray), bsdf)[1], le=le)
    return p, n, d, ray, eps, Le, bsdf, isect, deep, most


def speculars(S, ray, bsdf, isect, ren, scene, sample):
    """by contract: the specular bounces return some radiance"""
    A, B = rgb(S, 'mirror', 0, 2), rgb(S, 'glass', 0, 2)
    calls = []
    if S.symbolic:
        def fake(name, c):
            def f(r, b, i, rn, sc, sm, rg):
                S.ensures('bounce of this ray', r is ray and b is bsdf and i is isect and rn is ren and sc is scene and sm is sample, 'requires')
                calls.append(name)
                return c
            return f
        S.stub(U + ':specular_reflect', fake('reflect', A))
        S.stub(U + ':specular_transmit', fake('transmit', B))
    else:
        t = S.mod(RE).BDFType
        g = S.mod(G)
        bsdf.eta = 1.
        unit = g.Vector(*[float(x) for x in bsdf.dgs.nn])
        sq = unit.dot(unit)

        def sample_f(wo, smp, fl):
            calls.append('reflect' if typ(S, fl).v == (t.REFLECTION | t.SPECULAR) else 'transmit')
            return [sq, unit, fl, S.mod('pytracer').Spectrum(1.)]
        bsdf.sample_f = sample_f
        ren.li = lambda *a: ((A if calls[-1] == 'reflect' else B).copy(), None)
        S.requires(sq > .01)
    return A, B, calls


@contract(P, [W + ':WhittedIntegrator.li', W + ':WhittedIntegrator.__init__'], **O)
def whitted(S):
    """emission, every light once (delta or not, unoccluded, attenuated, over its density), and specular bounces below the depth limit"""
    p, n, d, ray, eps, Le, bsdf, isect, deep, most = hit_point(S)
    ren, sample = Rec(), object()
    if S.symbolic:
        N = S.int('N', 0)
        arr = {x: S.array(x, N) for x in ('E0', 'E1', 'E2', 'F0', 'F1', 'F2', 'T0', 'T1', 'T2', 'wx', 'wy', 'wz', 'pdf', 'open')}
        get = lambda x, i: arr[x].at(i)
    else:
        N = int(S.int('N', 0, 4))
        arr = {x: [S.real('%s%d' % (x, i), 0 if x[0] != 'w' else -1, 2) for i in range(N)] for x in ('E0', 'E1', 'E2', 'F0', 'F1', 'F2', 'T0', 'T1', 'T2', 'wx', 'wy', 'wz', 'pdf', 'open')}
        for i in range(N):
            if S.choice('black%d' % i, [False, True]):
                for c in 'E0 E1 E2'.split():
                    arr[c][i] = 0.
            if S.choice('zero%d' % i, [False, True]):
                arr['pdf'][i] = 0.
        get = lambda x, i: arr[x][i]
    g = S.mod(G)

    def seen(i):
        return S.lt(1, get('open', i))

    def dark(c):
        return S.And(*[S.lt(c[k], S.num(EPS)) for k in range(3)])

    def spectrum(x, i):
        return colour(S, lambda k: get('%s%d' % (x, k), i))
    drawn = []

    def rng(*a):
        drawn.append(S.fresh('draw') if S.symbolic else .1 * (len(drawn) % 10))
        return drawn[-1]

    def light(i):
        def sample_l(q, e, smp, tm):
            S.ensures('light sampled from the point', S.And(q is p, S.eq(e, eps), S.eq(tm, ray.time)), 'requires' if S.symbolic else 'ensures')
            bsdf.f = lambda o, w, *fl: (S.ensures('reflection of the pair', S.And(same(S, o, [-d[k] for k in range(3)]), same(S, w, [get('w' + c, i) for c in 'xyz']))), spectrum('F', i))[1]
            return [spectrum('E', i), g.Vector(*[get('w' + c, i) for c in 'xyz']), get('pdf', i),
                    Rec(unoccluded=lambda sc: (S.ensures('in the scene', sc is scene), S.decide(seen(i)))[1],
                        transmittance=lambda sc, rn, sm, rg: (S.ensures('attenuation in the scene', sc is scene and rn is ren), spectrum('T', i))[1])]
        return Rec(sample_l=sample_l)
    scene = Rec(lights=S.list(N, light) if S.symbolic else [light(i) for i in range(N)])

    def term(k, i):
        w = [get('w' + c, i) for c in 'xyz']
        lit = S.And(S.Not(dark(spectrum('E', i))), S.Not(dark(spectrum('F', i))), S.ne(get('pdf', i), 0), seen(i))
        v = S.div(get('F%d' % k, i) * get('E%d' % k, i) * cosine(S, w, n) * get('T%d' % k, i), get('pdf', i)) if S.symbolic or lit else 0
        return S.If(lit, v, 0) if S.symbolic else v
    if S.symbolic:
        # ghost sums; the value of one term is only looked at where the light is used
        terms = [S.array('term%d' % k, N, facts=lambda a, i, k=k: [S.Implies(True, True)]) for k in range(3)]
        sums = [partial(S, 'sum%d' % k, N, lambda i, k=k: terms[k].at(i)) for k in range(3)]
    else:
        sums = [partial(S, 'sum%d' % k, N, lambda i, k=k: term(k, i)) for k in range(3)]
    init = {}

    def role(name, v):
        if not hasattr(v, 'to_xyz'):
            return None
        base = [v[k] for k in range(3)]

        def inv(v, i):
            if init.get('step') is not None:
                j = init['step']
                for k in range(3):
                    S.requires(S.eq(terms[k].at(j), term(k, j)))
            return each(S, v, lambda k: base[k] + sums[k](i))

        def havoc(i):
            init['step'] = i
            return colour(S, lambda k: base[k] + sums[k](i))
        return havoc, inv
    WHIT.accumulate(S, role)
    A, B, calls = speculars(S, ray, bsdf, isect, ren, scene, sample)
    sl = S.snap(Le)
    it = S.mod(W).WhittedIntegrator(most)
    out = it.li(scene, ren, ray, isect, sample, rng)
    more = S.lt(deep + 1, most)
    if S.symbolic:
        S.ensures('emission, lights and bounces', each(S, out, lambda k: Le[k] + sums[k](N) + (A[k] + B[k] if calls else 0)))
    else:
        S.ensures('emission, lights and bounces', each(S, out, lambda k: Le[k] + sums[k](N) + (A[k] + B[k] if more else 0)))
    S.ensures('bounces up to the depth limit', S.Iff(more, sorted(calls) == ['reflect', 'transmit']) if calls else S.Not(more))
    S.ensures('emission of the surface unchanged', S.unchanged(Le, sl))


@contract(P, [D + ':DirectLightingIntegrator.li', D + ':DirectLightingIntegrator.__init__'], **O)
def direct_integrator(S):
    """emission, all lights or one of them by the strategy with the requested samples, and specular bounces below the depth limit"""
    p, n, d, ray, eps, Le, bsdf, isect, deep, most = hit_point(S)
    ren, sample = Rec(), Rec(oneD=[[.5], [.5], [.5]], twoD=[[[.5, .5]], [[.5, .5]]])
    m = S.mod(D)
    one = S.choice('strategy', [False, True])
    it = m.DirectLightingIntegrator(m.LightStrategy.SAMPLE_ONE_UNIFORM if one else m.LightStrategy.SAMPLE_ALL_UNIFORM, most)
    n_l = S.choice('lights', [0, 1, 2])
    E = [rgb(S, 'E%d' % i, .1, 2) for i in range(2)]
    lights = [Bulb(S, i, 1, lambda j, smp=None, i=i: E[i].copy()) for i in range(n_l)]
    scene = Rec(lights=lights)
    rng = lambda *a: .5
    lo = [Rec(nSamples=1, offset_com=0, offset_pos=0) for _ in range(1 if one else n_l)]
    bo = [Rec(nSamples=1, offset_com=1, offset_dir=1) for _ in range(1 if one else n_l)]
    it.light_sample_offsets, it.bsdf_sample_offsets = lo, bo
    if one:
        it.light_num_offset = 2
    bsdf.f = lambda o, i, *fl: S.mod('pytracer').Spectrum(1.)
    if not S.symbolic:
        g = S.mod(G)
        nn = g.normalize(S.mod(G).Vector(*[float(x) for x in n]))
        bsdf.dgs.nn = n = g.Normal(0., 0., 1.)
    used = []
    D_ = rgb(S, 'lit', 0, 2)
    if S.symbolic:
        def fake(which):
            def f(sc, rn, p_, n_, wo, ep, tm, b, sm, *rest, **kw):
                used.append((which, rest, kw))
                S.ensures('lights at the point', S.And(sc is scene, rn is ren, p_ is p, n_ is n, same(S, wo, [-d[i] for i in range(3)]), S.eq(ep, eps), S.eq(tm, ray.time), b is bsdf, sm is sample), 'requires')
                return D_
            return f
        S.stub(U + ':uniform_sample_all_lights', fake('all'))
        S.stub(U + ':uniform_sample_one_light', fake('one'))
    A, B, calls = speculars(S, ray, bsdf, isect, ren, scene, sample)
    sl = S.snap(Le)
    out = it.li(scene, ren, ray, isect, sample, rng)
    more = S.lt(deep + 1, most)
    if S.symbolic:
        lit = lambda k: D_[k] if n_l else 0
        S.ensures('one estimate of the lights', [u[0] for u in used] == ([] if not n_l else ['one' if one else 'all']))
        for _, rest, kw in used:
            a = list(rest)
            names = ['light_num_offset', 'light_offset', 'bsdf_offset', 'rng'] if one else ['light_offsets', 'bsdf_offsets', 'rng']
            kw = dict(zip(names, a), **kw)
            if one:
                S.ensures('requested samples', kw['light_num_offset'] == 2 and kw['light_offset'] is lo[0] and kw['bsdf_offset'] is bo[0])
            else:
                S.ensures('requested samples', kw['light_offsets'] is lo and kw['bsdf_offsets'] is bo)
    else:
        lit = lambda k: (n_l * E[min(int(.5 * n_l), n_l - 1)][k] if one else sum(E[i][k] for i in range(n_l))) if n_l else 0
    S.ensures('emission, lights and bounces', each(S, out, lambda k: Le[k] + lit(k) + (A[k] + B[k] if calls else 0)))
    S.ensures('bounces up to the depth limit', S.Iff(more, sorted(calls) == ['reflect', 'transmit']) if calls else S.Not(more))
    S.ensures('emission of the surface unchanged', S.unchanged(Le, sl))


REQ = api.cut(D, 'DirectLightingIntegrator.request_samples', 0)


@contract(P, [D + ':DirectLightingIntegrator.request_samples', RE + '.bsdf:BSDFSampleOffset.__init__'], **O)
def requests(S):
    """all lights: as many samples per light as it asks for, rounded by the sampler, requested one after the other; one light: one of each"""
    m = S.mod(D)
    one = S.choice('strategy', [False, True])
    n_l = S.choice('lights', [0, 1, 3])
    sizes = [int(S.choice('ns%d' % i, [1, 4])) for i in range(n_l)]
    it = m.DirectLightingIntegrator(m.LightStrategy.SAMPLE_ONE_UNIFORM if one else m.LightStrategy.SAMPLE_ALL_UNIFORM, 5)
    smp = S.mod('pytracer.sampler').Sample()
    sampler = S.choice('sampler', [None, 'rounds'])
    it.request_samples(Rec(round_size=lambda n: 2 * n) if sampler else None, smp, Rec(lights=[Rec(ns=k) for k in sizes]))
    want = [1] if one else [2 * k if sampler else k for k in sizes]
    lo, bo = it.light_sample_offsets, it.bsdf_sample_offsets
    S.ensures('one request per light', len(lo) == len(bo) == len(want))
    off1, off2 = [], []
    for l, b, k in zip(lo, bo, want):
        S.ensures('sizes', l.nSamples == b.nSamples == k and smp.n1D[l.offset_com] == smp.n1D[b.offset_com] == k and smp.n2D[l.offset_pos] == smp.n2D[b.offset_dir] == k)
        off1 += [l.offset_com, b.offset_com]
        off2 += [l.offset_pos, b.offset_dir]
    if one:
        S.ensures('number of the light', smp.n1D[it.light_num_offset] == 1)
        off1.append(it.light_num_offset)
    else:
        S.ensures('no number of the light', it.light_num_offset == -1)
    S.ensures('distinct requests, none spare', sorted(off1) == list(range(len(smp.n1D))) and sorted(off2) == list(range(len(smp.n2D))))


PATH = api.cut(PA, 'PathIntegrator.li', 0, api.WhileCut)


@contract(P, [PA + ':PathIntegrator.li', PA + ':PathIntegrator.__init__', PA + ':PathIntegrator.request_samples'], weight=3, shards=2, **O)
def path(S):
    """paths of any length: each vertex adds what its throughput carries of the light it emits (first vertex and after specular bounces) and of one light sampled;
    the throughput is multiplied by reflection, cosine over density, the transmittance of the segment, and the roulette; the path ends when absorbed, lost, or at
    the limit, and a lost specular path sees the surroundings"""
    m = S.mod(PA)
    g = S.mod(G)
    t = S.mod(RE).BDFType
    smp = S.mod('pytracer.sampler').Sample()
    most = S.int('most', 0, 6) if S.symbolic else int(S.int('most', 0, 6))
    it = m.PathIntegrator(most)
    it.request_samples(None, smp, None)
    smp.oneD = [[S.real('one%d' % i, 0, 1) for _ in range(n)] for i, n in enumerate(smp.n1D)]
    smp.twoD = [[[S.real('two%d%d' % (i, k), 0, 1) for k in range(2)] for _ in range(n)] for i, n in enumerate(smp.n2D)]
    S.ensures('three samples of each kind', len(smp.oneD) >= 4 * 3 and len(smp.twoD) >= 3 * 3 and all(n == 1 for n in smp.n1D + smp.n2D))
    ren_T, log = [], []
    if not S.symbolic:
        V = 5     # vertices prepared; lost after them
        vs = []
        lim = int(S.int('vertices', 1, V))
        for i in range(V):
            vs.append(Rec(p=S.point('p%d' % i, -2, 2), n=S.normal('n%d' % i, .2, 1), wi=S.vec('w%d' % i, .2, 1), f=shade(S, 'f%d' % i)[0], spec=S.choice('s%d' % i, [False, True]),
                          pdf=S.real('pdf%d' % i, .5, 2), Le=rgb(S, 'Le%d' % i, 0, 2), T=rgb(S, 'T%d' % i, 0, 1), E=rgb(S, 'E%d' % i, .1, 2), eps=S.real('e%d' % i, 0, .1)))
        env = rgb(S, 'env', 0, 2)
        state = dict(k=0)
        light = Bulb(S, 0, 1, lambda j, s=None: vs[state['k']].E.copy())
        light.le = lambda r: env.copy()
        unit = g.Normal(0., 0., 1.)

        def fill(x, i):
            v = vs[i]
            x.rEps = v.eps
            x.le = lambda w: v.Le.copy()
            bsdf = Rec(dgs=Rec(p=v.p, nn=unit), f=lambda *a: S.mod('pytracer').Spectrum(1.),
                       sample_f=lambda wo, s, fl=None: [v.pdf, v.wi, typ(S, t.REFLECTION | (t.SPECULAR if v.spec else t.DIFFUSE)), v.f])
            x.get_bsdf = lambda r: bsdf

        def intersect(r, x):
            v = vs[state['k']]
            S.ensures('next segment', S.And(same(S, r.o, v.p), same(S, r.d, v.wi), S.eq(r.mint, v.eps), S.eq(r.depth, state['k'] + 1)))
            if state['k'] + 1 >= lim:
                return False
            state['k'] += 1
            fill(x, state['k'])
            return True
        first = Rec()
        fill(first, 0)
        scene = Rec(lights=[light], intersect=intersect)
        T = rgb(S, 'T', 0, 1)
        ren = Rec(transmittance=lambda *a: T.copy())
        u = S.real('roulette', 0, 1)
        ray = g.RayDifferential(g.Point(0., 0., 0.), g.Vector(0., 0., 1.))
        out = it.li(scene, ren, ray, first, smp, lambda *a: u)
        beta, L, spec = [1.] * 3, [0.] * 3, True
        for k in range(V + 1):
            v = vs[k]
            L = [L[c] + beta[c] * ((v.Le[c] if spec else 0) + v.E[c]) for c in range(3)]
            if v.f.is_black():
                break
            spec = v.spec
            beta = [beta[c] * v.f[c] * abs(v.wi.z) / v.pdf for c in range(3)]
            if k > 3:
                lum = S.mod('pytracer').Spectrum([beta[0], beta[1], beta[2]]) if False else colour(S, lambda c: beta[c])
                q = min(.5, lum.y())
                if u > q:
                    break
                beta = [x / q for x in beta]
            if k == most:
                break
            if k + 1 >= lim:
                if spec:
                    L = [L[c] + beta[c] * env[c] for c in range(3)]
                break
            beta = [beta[c] * T[c] for c in range(3)]
        S.ensures('sum over the path', each(S, out, lambda c: L[c]))
        return
    # symbolic: one arbitrary step of the loop, from an arbitrary state
    scene, ren = Rec(), Rec()
    p, n, wi = S.point('p'), S.normal('n'), S.vec('wi')
    ray0 = g.RayDifferential(S.point('o'), S.vec('d'), 0., S.inf, 0, S.real('time'))
    Le, Dl, env, T = rgb(S, 'Le'), rgb(S, 'Dl'), rgb(S, 'env'), rgb(S, 'T')
    f, fblack = shade(S, 'f')
    pdf = S.real('pdf')
    S.requires(S.le(0, pdf))
    eps = S.real('eps')
    cur = {}

    def chosen(n):
        if n not in cur:
            cur[n] = S.choice(n, [False, True])
        return cur[n]
    drawn = []

    def rng(*a):
        drawn.append(S.fresh('draw'))
        return drawn[-1]

    def vertex(x):
        def le(w):
            S.ensures('emission towards the previous vertex', same(S, w, [-cur['ray'].d[i] for i in range(3)]), 'requires')
            cur['emitted'] = True
            return Le

        def sample_f(wo, s, *fl):
            S.ensures('bounce sampled from all reflection', S.And(same(S, wo, [-cur['ray'].d[i] for i in range(3)]), S.eq(typ(S, fl[0] if fl else t.ALL).v, typ(S, t.ALL).v)), 'requires')
            cur['bounce'] = s
            return [pdf, wi, typ(S, t.REFLECTION | (t.SPECULAR if not fblack and chosen('specular') else t.DIFFUSE)), f]
        x.rEps = eps
        x.le = le
        bsdf = cur['bsdf'] = Rec(dgs=Rec(p=p, nn=n), sample_f=sample_f)
        x.get_bsdf = lambda r: (S.ensures('reflection for the ray', r is cur['ray'], 'requires'), bsdf)[1]
        return x

    def one(sc, rn, p_, n_, wo, ep, tm, b, sm, *rest, **kw):
        kw = dict(zip(['light_num_offset', 'light_offset', 'bsdf_offset', 'rng'], rest), **kw)
        cur['lit'] = cur.get('lit', 0) + 1
        S.ensures('lights at the vertex', S.And(sc is scene, rn is ren, p_ is p, n_ is n, same(S, wo, [-cur['ray'].d[i] for i in range(3)]), S.eq(ep, eps), S.eq(tm, cur['ray'].time), b is cur['bsdf'], sm is smp), 'requires')
        cur['sampled'] = kw
        return Dl
    S.stub(U + ':uniform_sample_one_light', one)

    def intersect(r, x):
        cur['next'] = r
        S.ensures('next segment', S.And(same(S, r.o, p), same(S, r.d, wi), S.eq(r.mint, eps), not S.isnum(r.maxt), S.eq(r.time, cur['ray'].time), S.eq(r.depth, cur['ray'].depth + 1)), 'requires')
        cur['record'] = x
        return chosen('found')
    scene.intersect = intersect
    nl = 2
    envs = [env, rgb(S, 'env2')]
    scene.lights = [Rec(le=lambda r, i=i: (S.ensures('surroundings along the lost ray', r is cur['next'], 'requires'), envs[i])[1]) for i in range(nl)]

    def trans(sc, r, s, rg=None):
        S.ensures('transmittance of the segment', sc is scene and r is cur['next'], 'requires')
        cur['T'] = cur.get('T', 0) + 1
        return T
    ren.transmittance = trans
    isect0 = vertex(Rec())
    st = {}
    roles = {}

    def sort(loc):
        """what the variables of the loop stand for, by their values on entry"""
        for x in PATH.names:
            if x not in loc or x not in PATH.stored or x in PATH.unbound:
                continue
            v = loc[x]
            if v is ray0:
                roles[x] = 'ray'
            elif v is isect0:
                roles[x] = 'vertex'
            elif isinstance(v, bool):
                roles[x] = 'specular'
            elif hasattr(v, 'to_xyz'):
                roles[x] = 'L' if S.decide(S.eq(v[0], 0)) else 'beta'
            elif type(v).__name__ in ('int', 'Sym'):
                roles[x] = 'count'
            else:
                from pyvc.sym import Unsupported
                raise Unsupported('loop variable %s has no role' % x)

    def havoc(loc, i):
        S.requires(S.le(i, most))
        k = i
        first = S.decide(S.eq(i, 0))
        st['k'] = k
        ray = ray0 if first else g.RayDifferential(S.point('o1'), S.vec('d1'), 0., S.inf, S.fresh_int('depth'), ray0.time)
        cur['ray'] = ray
        v = isect0 if first else vertex(Rec())
        if not first:
            isect0.rEps = S.real('eps of the first vertex')
            isect0.le = isect0.get_bsdf = lambda *a: S.ensures('the vertex of the iteration is asked', False, 'requires')
        st['first'] = first
        st['before'] = False if first else S.choice('after specular', [False, True])
        beta = colour(S, lambda c: S.num(1)) if first else rgb(S, 'beta')
        L = colour(S, lambda c: S.num(0)) if first else rgb(S, 'L')
        st['beta'], st['L'] = [beta[c] for c in range(3)], [L[c] for c in range(3)]
        val = dict(ray=ray, vertex=v, specular=st['before'], beta=beta, L=L, count=k)
        return {x: val[r] for x, r in roles.items()}

    def gathered(loc_L, lost=False):
        carried = st['first'] or st['before']
        return lambda c: st['L'][c] + st['beta'][c] * ((Le[c] if carried else 0) + Dl[c])

    def through(c):
        b = S.div(st['beta'][c] * f[c] * cosine(S, wi, n), pdf)
        return S.div(b, st['q']) if st.get('q') is not None else b

    def roulette():
        st['q'] = None
        if S.decide(S.lt(3, st['k'])):
            y = colour(S, lambda c: S.div(st['beta'][c] * f[c] * cosine(S, wi, n), pdf)).y()
            st['q'] = S.min(S.num('.5'), y)

    def check(loc, i):
        if not roles:
            sort(loc)
            for x, r in roles.items():
                if r == 'beta':
                    S.ensures('throughput starts at one', each(S, loc[x], lambda c: 1), 'inv')
                elif r == 'L':
                    S.ensures('nothing gathered yet', each(S, loc[x], lambda c: 0), 'inv')
                elif r == 'count':
                    S.ensures('no bounces yet', S.eq(loc[x], 0), 'inv')
            return
        roulette()
        if st['q'] is not None:
            S.requires(S.lt(0, st['q']))
            S.ensures('survived the roulette', S.Or(*[S.le(x, st['q']) for x in drawn]), 'inv')
        S.ensures('goes on only through reflection, to a surface, below the limit', S.And(not fblack, S.ne(pdf, 0), chosen('found'), S.lt(st['k'], most)), 'inv')
        for x, r in roles.items():
            v = loc[x]
            if r == 'beta':
                S.ensures('throughput', each(S, v, lambda c: through(c) * T[c]), 'inv')
            elif r == 'L':
                S.ensures('gathered', each(S, v, gathered(v)), 'inv')
            elif r == 'count':
                S.ensures('bounces', S.eq(v, st['k'] + 1), 'inv')
            elif r == 'ray':
                S.ensures('ray traced', v is cur['next'], 'inv')
            elif r == 'vertex':
                S.ensures('vertex found', v is cur['record'], 'inv')
            elif r == 'specular':
                S.ensures('kind of bounce', bool(v) is chosen('specular'), 'inv')
        local()

    def local():
        S.ensures('one light estimate', cur.get('lit') == 1)
        S.ensures('emission when it was not sampled', bool(cur.get('emitted')) is bool(st['first'] or st['before']))
        k, kw, b = st['k'], cur['sampled'], cur['bounce']
        early = S.decide(S.lt(k, 3))
        if early:
            j = 0 if S.decide(S.eq(k, 0)) else 1 if S.decide(S.eq(k, 1)) else 2
            l, r = kw['light_offset'], kw['bsdf_offset']
            cur_off = [kw['light_num_offset'], l.offset_com, r.offset_com]
            S.ensures('samples of the bounce', len(set(cur_off)) == 3 and all(o in range(len(smp.oneD)) for o in cur_off) and l.offset_pos != r.offset_dir)
            S.ensures('each bounce its own', (kw['light_num_offset'], l, r) == (it._PathIntegrator__light_num_offset[j], it._PathIntegrator__light_sample_offsets[j], it._PathIntegrator__bsdf_sample_offsets[j]) if hasattr(it, '_PathIntegrator__light_num_offset') else True)
            S.ensures('direction from the samples', any(b.u_com is x[0] for x in smp.oneD) and any(b.u_dir[0] is x[0][0] and b.u_dir[1] is x[0][1] for x in smp.twoD))
        else:
            S.ensures('random samples later', kw.get('light_num_offset', -1) == -1 and kw.get('light_offset') is None and kw.get('bsdf_offset') is None)
            S.ensures('random direction later', any(b.u_com is x for x in drawn))
        S.ensures('transmittance once', cur.get('T', 0) == 1)

    def out_of(out):
        roulette()
        absorbed = S.Or(fblack, S.eq(pdf, 0))
        lost = 'next' in cur and not chosen('found')
        dead = S.And(st['q'] is not None, *[S.lt(st['q'], drawn[-1])] if drawn and st['q'] is not None else [False])
        S.ensures('ends when absorbed, by the roulette, at the limit or lost', S.Or(absorbed, dead, S.eq(st['k'], most), lost))
        if lost and chosen('specular'):
            if st['q'] is not None:
                S.requires(S.lt(0, st['q']))
            S.ensures('surroundings after a specular bounce', each(S, out, lambda c: gathered(out)(c) + through(c) * sum(envs[i][c] for i in range(nl))))
        else:
            S.ensures('gathered at the end', each(S, out, gathered(out)))
        S.ensures('one light estimate', cur.get('lit') == 1)
    PATH.use(S, havoc, check)
    PATH.variant = lambda loc: most - [loc[x] for x, r in roles.items() if r == 'count'][0]
    snap = S.snap(f)
    out = it.li(scene, ren, ray0, isect0, smp, rng)
    out_of(out)
    S.ensures('reflection unchanged', S.unchanged(f, snap))


# ------------------------------------------------------------------ renderer
@contract(P, [R + ':SamplerRenderer.li', R + ':SamplerRenderer.transmittance', R + ':SamplerRenderer.__init__'], **O)
def renderer(S):
    """radiance of the surface hit or of all lights around, attenuated by the medium and with its own; transmittance one without medium"""
    m = S.mod(R)
    hit, vol = S.choice('hit', [True, False]), S.choice('medium', [True, False])
    Ls, Lv, T = rgb(S, 'Ls', 0, 2), rgb(S, 'Lv', 0, 2), rgb(S, 'T', 0, 1)
    nl = S.choice('lights', [0, 1, 3])
    E = [rgb(S, 'E%d' % i, 0, 2) for i in range(nl)]
    sn = [S.snap(e) for e in E] + [S.snap(Ls), S.snap(Lv), S.snap(T)]
    time = S.real('time', 0, 1)
    ray, sample, isect = Rec(time=time), Rec(time=time), object()
    log = []
    scene = Rec(lights=[Rec(le=lambda r, e=e: (S.ensures('along the ray', r is ray), e)[1]) for e in E], intersect=lambda r, i: (log.append((r, i)), hit)[1])
    surf = Rec(li=lambda sc, rn, r, i, s, rg: (S.ensures('surface asked about the hit', sc is scene and rn is ren and r is ray and i is isect and s is sample and rg == 'rng'), Ls)[1])
    med = Rec(li=lambda sc, rn, r, s, rg: (S.ensures('medium asked about the ray', sc is scene and rn is ren and r is ray and s is sample and rg == 'rng'), (Lv, T))[1],
              transmittance=lambda sc, rn, r, s, rg: (S.ensures('medium asked for the transmittance', sc is scene and rn is ren and r is ray and s is sample), T)[1]) if vol else None
    ren = m.SamplerRenderer('sampler', 'camera', surf, med)
    out, tr = ren.li(scene, ray, sample, isect, 'rng')
    S.ensures('traced once', len(log) == 1 and log[0][0] is ray and log[0][1] is isect)

    def seen(k):
        return Ls[k] if hit else sum(e[k] for e in E)
    S.ensures('radiance', each(S, out, lambda k: T[k] * seen(k) + Lv[k] if vol else seen(k)))
    S.ensures('transmittance with it', each(S, tr, lambda k: T[k] if vol else 1))
    S.ensures('transmittance', each(S, ren.transmittance(scene, ray, sample, 'rng'), lambda k: T[k] if vol else 1))
    S.ensures('emission unchanged', S.And(*[S.unchanged(x, s) for x, s in zip(E + [Ls, Lv, T], sn)]))


@contract(P, [R + ':SamplerRendererTask.__call__', R + ':SamplerRendererTask.__init__'], bounded='at most 3 samples in a pixel, at most 2 pixels', **O)
def task(S):
    """every sample is traced along its own camera ray, with differentials scaled by the sampling rate, weighted by the camera and added to the film once;
    radiance that is not a number, negative or infinite is replaced by black"""
    import contextlib
    import io
    m = S.mod(R)
    per, pixels = S.choice('per pixel', [1, 2, 3]), S.choice('pixels', [0, 1, 2])
    ids = S.choice('visualise', [False, True])
    bad = S.choice('bad', [None, 'nan', 'inf', 'negative'])
    wts = [[S.real('w%d%d' % (i, j), .1, 1) for j in range(per)] for i in range(pixels)]
    cols = [[rgb(S, 'L%d%d' % (i, j), .1, 2) for j in range(per)] for i in range(pixels)]
    for r in cols:
        for c in r:
            for k in range(3):
                S.requires(S.le(0, c[k]))
    for r in wts:
        for w in r:
            S.requires(S.le(0, w))
    if S.symbolic and bad:
        bad = None     # values that are not numbers are explored concretely
    st = dict(pixel=-1)
    hits = {}
    spp = S.choice('spp', [1, 4])
    scaled, film = [], []

    class Smp(object):
        pass

    class Sampler(object):
        xPixel_start, xPixel_end, yPixel_start, yPixel_end = 0, 2, 0, 1

        def maximum_sample_cnt(self):
            return per

        def generate(self, samples):
            S.ensures('room for the samples', len(samples) == per)
            st['pixel'] += 1
            for s in samples:
                s.pixel = st['pixel']
            return st['pixel'] < pixels

        def report_results(self, samples, rays, ls, isects):
            return True
    smp = Sampler()
    smp.spp = spp

    def number(s):
        return [x is s for x in st['samples']].index(True)

    def generate(s):
        j = number(s)
        ray = Rec(scale_differential=lambda x: scaled.append((s.pixel, j, x)), at=(s.pixel, j))
        return wts[s.pixel][j], ray

    def duplicate(n):
        st['samples'] = [Smp() for _ in range(n)]
        return st['samples']
    good = S.choice('hit', [True, False])
    scene = Rec(intersect_p=lambda r: good)
    traced = []

    def li(sc, r, s, i, rg):
        S.ensures('radiance of the ray of the sample', sc is scene and r.at == (s.pixel, number(s)))
        traced.append(r.at)
        c = cols[r.at[0]][r.at[1]].copy()
        if bad and r.at == (0, 0):
            c[0] = dict(nan=float('nan'), inf=float('inf'), negative=-50.)[bad]
        return c, None
    cam = Rec(generate_ray_differential=generate, film=Rec(add_sample=lambda s, l: film.append((s.pixel, number(s), [l[k] for k in range(3)]))))
    tk = m.SamplerRendererTask(scene, Rec(li=li), cam, smp, Rec(duplicate=duplicate), ids, 1, 1)
    if S.symbolic:
        S.stub('pytracer.utility.utility:progress_reporter', lambda *a, **k: None)
    with contextlib.redirect_stdout(io.StringIO()):
        tk()
    every = [(i, j) for i in range(pixels) for j in range(per)]
    S.ensures('every sample once on the film', [x[:2] for x in film] == every)
    S.ensures('differentials scaled once each', S.And([x[:2] for x in scaled] == every, *[S.eq(x[2] * x[2] * spp, 1) for x in scaled]))
    if ids:
        for i, j, c in film:
            S.ensures('hits shown', S.And(*[S.Implies(S.lt(0, wts[i][j]), S.eq(c[k], 1 if good else 0)) for k in range(3)]))
        return
    for i, j, c in film:
        w = wts[i][j]
        if bad and (i, j) == (0, 0):
            S.ensures('unusable radiance is black', all(x == 0 for x in c))
        else:
            S.ensures('weighted radiance', S.And(*[S.eq(c[k], cols[i][j][k] * w) for k in range(3)]))


@contract(P, [R + ':SamplerRenderer.render'], **O)
def render(S):
    """integrators are prepared, one sample is made from their requests, the task runs, then the image is written"""
    m = S.mod(R)
    log = []
    vol = S.choice('medium', [True, False])

    def integ(n):
        return Rec(preprocess=lambda sc, c, r: log.append((n, 'prepared', sc is scene, c is cam, r is ren)), request_samples=lambda s, x, sc: log.append((n, 'requests', s is smp, sc is scene)))
    scene = Rec()
    cam = Rec(film=Rec(write_image=lambda *a: log.append('written')))

    class Sampler(object):
        xPixel_start, xPixel_end, yPixel_start, yPixel_end = 0, 2, 0, 1

        def maximum_sample_cnt(self):
            return 1

        def generate(self, samples):
            log.append('generated')
            return False
    smp = Sampler()
    ren = m.SamplerRenderer(smp, cam, integ('surface'), integ('medium') if vol else None)
    ren.render(scene)
    S.ensures('prepared and sampled with the scene', all(all(x[2:]) for x in log if isinstance(x, tuple)))
    who = ['surface'] + (['medium'] if vol else [])
    S.ensures('each prepared once, each asked for its samples once', sorted(x[:2] for x in log if isinstance(x, tuple)) == sorted([(w, a) for w in who for a in ('prepared', 'requests')]))
    S.ensures('rendered, then written', log[-2:] == ['generated', 'written'] and log.count('written') == 1)
