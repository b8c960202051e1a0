"""C12: stratified sampling: patterns, pixel traversal, tiles and sample requests."""
from pyvc import api
from pyvc.api import contract

U = 'pytracer.sampler.utility'
B = 'pytracer.sampler.sampler'
T = 'pytracer.sampler.sampler.stratified'
M = 'pytracer.sampler.sample'
P = 'C12'
O = dict(div='assume', tol=1e-9)
LOOP = api.cut(T, 'StratifiedSampler.generate')
HALVE = api.cut(B, 'Sampler.compute_subwindow', 0, api.WhileCut)


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def cell(S, v, n, k):
    """v lies in the k-th of n equal cells of [0, 1)"""
    return S.And(S.le(k, v * n), S.lt(v * n, k + 1))


def shuffled(S, a):
    """ghost: position -> original position of the last shuffle of a, and its inverse"""
    if hasattr(a, 'perm'):
        return a.perm, a.inv
    return (lambda k: k), (lambda k: k)


@contract(P, [U + ':stratified_sample_1d', U + ':latin_hypercube_1d'], **O)
def patterns_1d(S):
    """exactly one value in each of n equal cells, for any n; in order when stratified, centred without jitter"""
    m = S.mod(U)
    n = S.int('n', 1, None if S.symbolic else 9)
    a = m.stratified_sample_1d(n)
    c = m.stratified_sample_1d(n, False)
    k = S.int('k', 0, n - 1)
    S.requires(S.lt(k, n))
    S.ensures('one per cell', S.And(S.eq(a.shape[0], n), cell(S, S.at(a, k), n, k)))
    S.ensures('cell centres', S.And(S.eq(c.shape[0], n), S.eq(S.at(c, k) * n * 2, 2 * k + 1)))
    h = m.latin_hypercube_1d(n)
    S.ensures('as many', S.eq(h.shape[0], n))
    if S.symbolic:
        p, q = shuffled(S, h)
        S.ensures('each value in some cell', S.And(cell(S, h.at(k), n, p(k)), S.le(0, p(k)), S.lt(p(k), n)))
        S.ensures('each cell hit once', S.And(cell(S, h.at(q(k)), n, k), S.le(0, q(k)), S.lt(q(k), n), S.eq(p(q(k)), k), S.eq(q(p(k)), k)))
    else:
        S.ensures('each cell hit once', sorted(int(x * n) for x in h) == list(range(n)))


@contract(P, [U + ':stratified_sample_2d'], **O)
def pattern_2d(S):
    """sample k lies in cell (k mod nx, k div nx): exactly one in each of nx x ny cells"""
    m = S.mod(U)
    nx, ny = S.int('nx', 1, None if S.symbolic else 5), S.int('ny', 1, None if S.symbolic else 5)
    x, y = S.int('x', 0, nx - 1), S.int('y', 0, ny - 1)
    a = m.stratified_sample_2d(nx, ny)
    c = m.stratified_sample_2d(nx, ny, False)
    k = y * nx + x
    if S.symbolic:
        S.lemma('row of the cell', S.eq(k // nx, y))
        S.lemma('column of the cell', S.eq(k % nx, x))
        S.lemma('within the pattern', S.And(S.le(0, k), S.lt(k, nx * ny), S.le(y * nx, (ny - 1) * nx)))
    S.ensures('size', S.And(S.eq(a.shape[0], nx * ny), S.eq(c.shape[0], nx * ny), S.eq(a.shape[1], 2), S.eq(c.shape[1], 2)))
    S.ensures('one sample in each cell', S.And(cell(S, S.at(a, k, 0), nx, x), cell(S, S.at(a, k, 1), ny, y)))
    S.ensures('cell centres', S.And(S.eq(S.at(c, k, 0) * nx * 2, 2 * x + 1), S.eq(S.at(c, k, 1) * ny * 2, 2 * y + 1)))


@contract(P, [U + ':latin_hypercube_2d'], **O)
def hypercube_2d(S):
    """the projections onto either axis hit every one of n cells exactly once, for any n"""
    m = S.mod(U)
    n = S.int('n', 1, None if S.symbolic else 9)
    k = S.int('k', 0, n - 1)
    S.requires(S.lt(k, n))
    h = m.latin_hypercube_2d(n)
    S.ensures('size', S.And(S.eq(h.shape[0], n), S.eq(h.shape[1], 2)))
    if S.symbolic:
        from pyvc.sym import ctx
        sh = getattr(ctx(), 'shuffles', [])
        for axis in (0, 1):
            # the sample that hits cell k: position k, or where some shuffle moved it
            ok = [S.And(S.le(0, q), S.lt(q, n), cell(S, h.at(q, axis), n, k)) for q in [k] + [s.inv(k) for s in sh]]
            S.ensures('every cell of axis %d hit' % axis, S.Or(*ok))
            ok = [S.And(S.le(0, q), S.lt(q, n), cell(S, h.at(k, axis), n, q)) for q in [k] + [s.perm(k) for s in sh]]
            S.ensures('every sample of axis %d in a cell' % axis, S.Or(*ok))
    else:
        for axis in (0, 1):
            S.ensures('every cell of axis %d hit once' % axis, sorted(int(x * n) for x in h[:, axis]) == list(range(n)))


def sampler(S, jitter=None):
    xs, ys = S.int('xs', -3, 4), S.int('ys', -3, 4)
    w, h = S.int('w', 1, None if S.symbolic else 4), S.int('h', 1, None if S.symbolic else 4)
    nx, ny = S.int('nx', 1, None if S.symbolic else 4), S.int('ny', 1, None if S.symbolic else 4)
    o, d = S.real('open', -2, 2), S.real('shutter', 0, 3)
    j = S.choice('jitter', [True, False]) if jitter is None else jitter
    return S.mod(T).StratifiedSampler(xs, xs + w, ys, ys + h, nx, ny, j, o, o + d), xs, ys, w, h, nx, ny, o, d


@contract(P, [T + ':StratifiedSampler.__init__', T + ':StratifiedSampler.maximum_sample_cnt', T + ':StratifiedSampler.round_size', B + ':Sampler.__init__',
              B + ':Sampler.report_results'], **O)
def construct(S):
    """parameters kept, at least one sample per axis, traversal starts at the first pixel"""
    a, b = S.int('a', -3, 6), S.int('b', -3, 6)
    xs, xe, ys, ye = S.int('xs'), S.int('xe'), S.int('ys'), S.int('ye')
    o, c = S.real('o'), S.real('c')
    s = S.mod(T).StratifiedSampler(xs, xe, ys, ye, a, b, True, o, c)
    S.ensures('samples per pixel', S.And(S.eq(s.xSamples, S.max(a, 1)), S.eq(s.ySamples, S.max(b, 1)), S.eq(s.spp, S.max(a, 1) * S.max(b, 1)),
                                         S.eq(s.maximum_sample_cnt(), S.max(a, 1) * S.max(b, 1))))
    S.ensures('window', S.And(S.eq(s.xPixel_start, xs), S.eq(s.xPixel_end, xe), S.eq(s.yPixel_start, ys), S.eq(s.yPixel_end, ye)))
    S.ensures('starts at the first pixel', S.And(S.eq(s.xPos, xs), S.eq(s.yPos, ys)))
    S.ensures('shutter', S.And(S.eq(s.s_open, o), S.eq(s.s_close, c)))
    S.ensures('any request size suits', S.eq(s.round_size(a), a))
    S.ensures('no sample is rejected', s.report_results([], [], [], []) is True)


@contract(P, T + ':StratifiedSampler.generate', div='assume', tol=1e-7, cancel=True, weight=2)
def generate(S):
    """one pixel per call in scanline order: stratified image and lens positions, times in the shutter interval and one Latin
    hypercube per request; nothing once the window is exhausted"""
    m = S.mod(T)
    s, xs, ys, w, h, nx, ny, o, d = sampler(S)
    n = nx * ny
    if not S.symbolic:
        return generate_all(S, s, xs, ys, w, h, nx, ny, o, d)
    jit = s.jitter
    px, py = S.int('px'), S.int('py')
    S.requires(S.And(S.le(xs, px), S.lt(px, xs + w), S.le(ys, py), S.le(py, ys + h)))
    s.xPos, s.yPos = px, py
    r1, r2, r3 = S.int('r1', 0), S.int('r2', 0), S.int('r3', 0)
    smp = S.list(n, lambda k: Rec(n1D=[r1, r2], n2D=[r3], oneD=[None, None], twoD=[None]))
    pats, lhs = [], []

    def flat(cnt, j=True, rng=None):
        a = S.array('strat1', cnt)
        pats.append((a.copy(), a, j, (cnt,)))
        return a

    def square(a1, a2, j=True, rng=None):
        a = S.array('strat2', (a1 * a2, 2))
        pats.append((a.copy(), a, j, (a1, a2)))
        return a

    def lhc(dim):
        def f(cnt, rng=None):
            x = Rec(dim=dim, cnt=cnt)
            lhs.append(x)
            return x
        return f
    S.stub(U + ':stratified_sample_1d', flat)
    S.stub(U + ':stratified_sample_2d', square)
    S.stub(U + ':latin_hypercube_1d', lhc(1))
    S.stub(U + ':latin_hypercube_2d', lhc(2))

    def filled(i):
        x = smp.at(i)
        if not hasattr(x, 'imageX') or len(pats) != 3:
            return False
        (im, im2, j1, s1), (le, le2, j2, s2), (ti, ti2, j3, s3) = pats
        (p1, _), (p2, _), (p3, _) = shuffled(S, im2), shuffled(S, le2), shuffled(S, ti2)
        t = ti.at(p3(i))
        c = [S.eq(x.imageX, px + im.at(p1(i), 0)), S.eq(x.imageY, py + im.at(p1(i), 1)),
             S.eq(x.lens_u, le.at(p2(i), 0)), S.eq(x.lens_v, le.at(p2(i), 1)), S.eq(x.time, o + t * d)]
        ok = all(isinstance(v, Rec) for v in x.oneD + x.twoD) and len({id(v) for v in x.oneD + x.twoD}) == 3
        if not ok:
            return False
        c += [S.eq(x.oneD[0].cnt, r1), S.eq(x.oneD[1].cnt, r2), S.eq(x.twoD[0].cnt, r3), x.oneD[0].dim == x.oneD[1].dim == 1, x.twoD[0].dim == 2]
        return S.And(*c)

    def havoc(loc, i):
        return {}

    def check(loc, i):
        k = LOOP.i if hasattr(LOOP, 'i') and not S.identical(i, 0) else None
        if k is not None and S.identical(i, k + 1):
            S.ensures('sample filled', filled(k), 'inv')
            S.ensures('no other sample touched', all(x is smp.at(k) or not hasattr(x, 'imageX') for t, x in smp.memo.values()), 'inv')
    LOOP.use(S, havoc, check)
    r = s.generate(smp)
    S.ensures('false exactly when exhausted', S.Iff(r, S.lt(py, ys + h)))
    S.ensures('reading order', S.If(S.eq(py, ys + h), S.And(S.eq(s.xPos, px), S.eq(s.yPos, py)),
                                    S.And(S.eq((s.yPos - ys) * w + s.xPos - xs, (py - ys) * w + px - xs + 1), S.le(xs, s.xPos), S.lt(s.xPos, xs + w), S.le(s.yPos, ys + h))))
    S.ensures('parameters kept', S.And(S.eq(s.xPixel_start, xs), S.eq(s.yPixel_end, ys + h), S.eq(s.xSamples, nx), S.eq(s.ySamples, ny)))
    if pats:
        S.ensures('patterns', S.And(len(pats) == 3, all(p[2] is jit for p in pats), *[S.eq(a, b) for p in pats[:2] for a, b in zip(p[3], (nx, ny))] +
                                    [S.eq(pats[2][3][0], n)]) if len(pats) == 3 else False)


def generate_all(S, s, xs, ys, w, h, nx, ny, o, d):
    m = S.mod(M)
    proto = m.Sample()
    proto.add_1d(S.int('r1', 0, 5))
    proto.add_2d(S.int('r2', 0, 5))
    proto.add_1d(S.int('r3', 0, 5))
    smp = proto.duplicate(nx * ny)
    pix, n = [], nx * ny
    while s.generate(smp):
        ip = {(int(x.imageX // 1), int(x.imageY // 1)) for x in smp}
        S.ensures('all in one pixel', len(ip) == 1)
        pix.append(ip.pop())
        X, Y = pix[-1]
        S.ensures('stratified in the pixel', sorted((int((x.imageX - X) * nx), int((x.imageY - Y) * ny)) for x in smp) ==
                  sorted((a, b) for a in range(nx) for b in range(ny)) if s.jitter or nx * ny < 9 else True)
        S.ensures('stratified on the lens', sorted((int(x.lens_u * nx), int(x.lens_v * ny)) for x in smp) ==
                  sorted((a, b) for a in range(nx) for b in range(ny)))
        if d > .1:
            t = sorted((x.time - o) / d for x in smp)
            S.ensures('stratified in time', all(k / n - 1e-9 <= t[k] <= (k + 1) / n + 1e-9 for k in range(n)))
        S.ensures('within the shutter interval', all(o - 1e-9 <= x.time <= o + d + 1e-9 for x in smp))
        for x in smp:
            for c, a in zip(x.n1D, x.oneD):
                S.ensures('one cell each', sorted(int(v * c) for v in a) == list(range(c)))
            for c, a in zip(x.n2D, x.twoD):
                S.ensures('one cell each per axis', all(sorted(int(v * c) for v in a[:, q]) == list(range(c)) for q in (0, 1)))
        if not s.jitter:
            S.ensures('centres', all(abs((x.imageX - X) * nx % 1 - .5) < 1e-6 for x in smp))
        S.ensures('own storage', len({id(a) for x in smp for a in x.oneD + x.twoD}) == 3 * n)
    S.ensures('every pixel once in reading order', pix == [(x, y) for y in range(ys, ys + h) for x in range(xs, xs + w)])
    S.ensures('stays exhausted', s.generate(smp) is False)


@contract(P, B + ':Sampler.compute_subwindow', div='assume', tol=1e-9)
def tile(S):
    """tile num of cnt is cell (num mod nx, num div nx) of an nx x ny grid, nx ny = cnt, of the window; ends rounded down"""
    s, xs, ys, w, h = sampler(S, True)[:5]
    cnt = S.int('cnt', 1, None if S.symbolic else 40)
    num = S.int('num', 0, cnt - 1)
    S.requires(S.lt(num, cnt))
    g = {}
    if S.symbolic:
        def havoc(loc, i):
            g['nx'], g['ny'] = S.fresh_int('nx'), S.fresh_int('ny')
            S.requires(S.And(S.le(1, g['nx']), S.le(1, g['ny']), S.eq(g['nx'] * g['ny'], cnt)))
            return {'nx': g['nx'], 'ny': g['ny']}

        def check(loc, i):
            S.ensures('grid', S.And(S.le(1, loc['nx']), S.le(1, loc['ny']), S.eq(loc['nx'] * loc['ny'], cnt)), 'inv')
        HALVE.variant = lambda loc: loc['nx']
        HALVE.use(S, havoc, check)
    r = s.compute_subwindow(num, cnt)
    if S.symbolic:
        grids = [(g['nx'], g['ny'])]
    else:
        grids = [(a, cnt // a) for a in range(1, cnt + 1) if cnt % a == 0]
    ok = []
    for nx, ny in grids:
        e = [xs + S.div(num % nx * w, nx), xs + S.div((num % nx + 1) * w, nx), ys + S.div(num // nx * h, ny), ys + S.div((num // nx + 1) * h, ny)]
        if S.symbolic:
            ok.append(S.And(*[S.eq(r[i], S.floor(e[i])) for i in range(4)]))
        else:
            ok.append(all(r[i] <= e[i] + 1e-9 and e[i] - 1e-9 < r[i] + 1 for i in range(4)))
    S.ensures('cell of the grid', S.Or(*ok) if S.symbolic else any(ok))
    S.ensures('pixels', S.And(len(r) == 4, *[S.eq(S.floor(x), x) for x in r]))
    S.ensures('within the window', S.And(S.le(xs, r[0]), S.le(r[0], r[1]), S.le(r[1], xs + w), S.le(ys, r[2]), S.le(r[2], r[3]), S.le(r[3], ys + h)))


@contract(P, [B + ':Sampler.compute_subwindow', T + ':StratifiedSampler.get_subsampler'], div='assume', tol=1e-9, n=60, fork_ite=True,
          bounded='tile counts of at most 4 (any window); random counts up to 40 on the real code')
def tiling(S):
    """the tiles partition the window, empty ones are skipped, and every sub-sampler keeps the other parameters"""
    s, xs, ys, w, h, nx, ny, o, d = sampler(S)
    cnt = S.choice('cnt', [1, 2, 3, 4]) if S.symbolic else S.int('cnt', 1, 40)
    wins = [s.compute_subwindow(i, cnt) for i in range(cnt)]
    X, Y = S.int('X'), S.int('Y')
    S.requires(S.And(S.le(xs, X), S.lt(X, xs + w), S.le(ys, Y), S.lt(Y, ys + h))) if S.symbolic else None
    pts = [(X, Y)] if S.symbolic else [(x, y) for x in range(xs, xs + w) for y in range(ys, ys + h)]
    for X, Y in pts:
        inn = [S.And(S.le(r[0], X), S.lt(X, r[1]), S.le(r[2], Y), S.lt(Y, r[3])) for r in wins]
        S.ensures('each pixel in some tile', S.Or(*inn))
        S.ensures('each pixel in one tile', S.And(*[S.Not(S.And(inn[i], inn[j])) for i in range(cnt) for j in range(i)]))
    k = S.choice('k', list(range(cnt)))
    sub = s.get_subsampler(k, cnt)
    r = wins[k]
    empty = S.Or(S.eq(r[0], r[1]), S.eq(r[2], r[3]))
    S.ensures('none exactly when empty', S.Iff(sub is None, empty))
    if sub is not None:
        S.ensures('its tile', S.And(S.eq(sub.xPixel_start, r[0]), S.eq(sub.xPixel_end, r[1]), S.eq(sub.yPixel_start, r[2]), S.eq(sub.yPixel_end, r[3]),
                                    S.eq(sub.xPos, r[0]), S.eq(sub.yPos, r[2])))
        S.ensures('other parameters', S.And(S.eq(sub.xSamples, nx), S.eq(sub.ySamples, ny), sub.jitter is s.jitter, S.eq(sub.s_open, o), S.eq(sub.s_close, o + d)))
    S.ensures('parent unchanged', S.And(S.eq(s.xPos, xs), S.eq(s.yPos, ys), S.eq(s.xPixel_end, xs + w)))


@contract(P, [M + ':Sample.__init__', M + ':Sample.duplicate', M + ':Sample.add_1d', M + ':Sample.add_2d', M + ':CameraSample.__init__'], **O)
def requests(S):
    """requests are answered with the slot they are stored in; duplicates have the same requests and storage of their own"""
    m = S.mod(M)
    v = [S.real('v%d' % i) for i in range(5)]
    a, b, c = S.int('a', 0, 9), S.int('b', 0, 9), S.int('c', 0, 9)
    got = {}

    class Surf(object):
        def request_samples(self, sampler, sample, scene):
            got['surf'] = (sampler, sample, scene, sample.add_1d(a), sample.add_2d(b))

    class Vol(object):
        def request_samples(self, sampler, sample, scene):
            got['vol'] = (sampler, sample, scene, sample.add_1d(c))
    sm, sc = object(), object()
    s = m.Sample(sm, Surf(), Vol(), sc, *v)
    S.ensures('integrators asked with the sample', got['surf'][:3] == (sm, s, sc) and got['vol'][:3] == (sm, s, sc))
    S.ensures('slots in order', S.And(got['surf'][3] == 0, got['surf'][4] == 0, got['vol'][3] == 1, len(s.n1D) == 2, len(s.n2D) == 1))
    S.ensures('sizes kept', S.And(S.eq(s.n1D[0], a), S.eq(s.n1D[1], c), S.eq(s.n2D[0], b)))
    S.ensures('room for each', len(s.oneD) == 2 and len(s.twoD) == 1)
    S.ensures('position', S.And(S.eq(s.imageX, v[0]), S.eq(s.imageY, v[1]), S.eq(s.lens_u, v[2]), S.eq(s.lens_v, v[3]), S.eq(s.time, v[4])))
    ds = s.duplicate(3)
    S.ensures('three duplicates', len(ds) == 3 and len({id(x) for x in ds}) == 3)
    for x in ds:
        S.ensures('same requests', S.And(len(x.n1D) == 2, len(x.n2D) == 1, *[S.eq(p, q) for p, q in zip(list(x.n1D) + list(x.n2D), list(s.n1D) + list(s.n2D))]))
        S.ensures('own room', len(x.oneD) == 2 and len(x.twoD) == 1)
    ids = [id(x.oneD) for x in ds + [s]] + [id(x.twoD) for x in ds + [s]]
    S.ensures('storage not shared', len(set(ids)) == len(ids))
