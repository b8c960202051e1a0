"""C10: the image film: extents, filter-weighted accumulation, splats, the written image."""
from pyvc import api
from pyvc.api import contract

M = 'pytracer.film.film'
F = M + ':ImageFilm'
I = 'pytracer.utility.imageio'
P = 'C10'
O = dict(div='assume', sqrt='assume', tol=1e-7)
ALLOC = [api.cut(M, 'ImageFilm.__init__', k) for k in range(2)]
ADD = [api.cut(M, 'ImageFilm.add_sample', k) for k in range(2)]
OUT = [api.cut(M, 'ImageFilm.write_image', k) for k in range(2)]


class Rec(object):
    def __init__(self, **k):
        self.__dict__.update(k)


class Table(object):
    """filter given by its values; remembers where it is evaluated"""

    def __init__(self, S, xw, yw):
        self.S, self.xw, self.yw, self.xwInv, self.ywInv, self.calls = S, xw, yw, S.div(1, xw), S.div(1, yw), []

    def __call__(self, x, y):
        v = self.S.fresh('f') if self.S.symbolic else (x * 1.25 + 3.) * (y * .5 + 1.)
        self.calls.append((x, y, v))
        return v


class Grid(object):
    """two-dimensional object store of symbolic extent, items made on demand"""

    def __init__(self, n, m, make):
        self.shape, self.make, self.items = (n, m), make, {}

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self.cell(*k)
        return Row(self, k)

    def __setitem__(self, k, v):
        self.put(k[0], k[1], v)

    def key(self, S, i, j):
        for (a, b) in self.items:
            if S.identical(a, i) and S.identical(b, j):
                return (a, b)
        return (i, j)

    def check(self, i, j):
        from pyvc.sym import ctx, bterm
        S = self.S
        for k, n in ((i, self.shape[0]), (j, self.shape[1])):
            ctx().definedness('index', bterm(S.And(S.le(0, k), S.lt(k, n))))

    def cell(self, i, j):
        self.check(i, j)
        k = self.key(self.S, i, j)
        if k not in self.items:
            self.items[k] = self.make(i, j)
        return self.items[k]

    def put(self, i, j, v):
        self.check(i, j)
        self.items[self.key(self.S, i, j)] = v
        self.sets = getattr(self, 'sets', []) + [(i, j, v)]


class Row(object):
    def __init__(self, g, i):
        self.g, self.i = g, i

    def __getitem__(self, j):
        return self.g.cell(self.i, j)

    def __setitem__(self, j, v):
        self.g.put(self.i, j, v)


def crop(S):
    c = [S.real('c%d' % i, 0, 1) for i in range(4)]
    S.requires(S.And(S.le(c[0], c[1]), S.le(c[2], c[3])))
    return c


@contract(P, [F + '.__init__', F + '.get_pixel_extent', F + '.get_sample_extent', M + ':Film.__init__', F + '.Pixel.__init__'], weight=2, **O)
def construct(S):
    """the pixels are those of the crop window, each with storage of its own and black; the table holds the filter at the centres
    of its cells; samples outside the sample extent reach no pixel"""
    m = S.mod(M)
    xr, yr = S.int('xr', 1, 9 if not S.symbolic else None), S.int('yr', 1, 9 if not S.symbolic else None)
    c = crop(S)
    f = Table(S, S.real('xw', .25, 4), S.real('yw', .25, 4))
    made = []
    if S.symbolic:
        np = m.np
        empty = np.empty

        def alloc(shape, dtype=None, **k):
            if dtype is not object:
                return empty(shape, dtype=dtype)
            g = Grid(shape[0], shape[1], lambda i, j: None)
            g.S = S
            made.append(g)
            return g
        S.stub(M + ':np.empty', alloc)
        ALLOC[0].use(S, lambda loc, i: {}, lambda loc, i: None)

        def chk(loc, j):
            k = getattr(ALLOC[1], 'i', None)
            if k is not None and S.identical(j, k + 1):
                g = made[0]
                st = getattr(g, 'sets', [])
                S.ensures('storage for the pixel of the iteration', len(made) == 1 and len(st) == 1 and S.And(S.eq(st[0][0], ALLOC[0].i), S.eq(st[0][1], k)), 'inv')
                v = st[0][2]
                S.ensures('a black pixel', S.And(*([S.eq(x, 0) for x in list(v.Lxyz) + list(v.splatXYZ)] + [S.eq(v.weight_sum, 0)])), 'inv')
        ALLOC[1].use(S, lambda loc, i: {}, chk)
    else:
        c = [c[0], c[1], c[2], c[3]]
    film = m.ImageFilm(xr, yr, f, list(c), 'out.png')
    X0, X1 = S.ceil(xr * c[0]), S.ceil(xr * c[1])
    Y0, Y1 = S.ceil(yr * c[2]), S.ceil(yr * c[3])
    e = film.get_pixel_extent()
    S.ensures('pixel extent', S.And(S.eq(e[0], X0), S.eq(e[1], S.max(X1, X0 + 1)), S.eq(e[2], Y0), S.eq(e[3], S.max(Y1, Y0 + 1))))
    S.ensures('parameters', S.And(S.eq(film.xResolution, xr), S.eq(film.yResolution, yr), film.filter is f, film.filename == 'out.png', *[S.eq(film.crop[i], c[i]) for i in range(4)]))
    S.ensures('one pixel per position', S.And(S.eq(film.pixels.shape[0], e[1] - e[0]), S.eq(film.pixels.shape[1], e[3] - e[2])))
    if not S.symbolic:
        px = [p for r in film.pixels for p in r]
        S.ensures('own storage', len({id(p) for p in px}) == len({id(p.Lxyz) for p in px}) == len({id(p.splatXYZ) for p in px}) == len(px))
        S.ensures('black', all((p.Lxyz == 0).all() and (p.splatXYZ == 0).all() and p.weight_sum == 0 for p in px))
    n = S.get('pytracer:FILTER_TABLE_SIZE')
    S.ensures('table size', tuple(film.filter_table.shape) == (n, n))
    for y in range(n):
        for x in range(n):
            v = film.filter_table[y, x]
            px, py = S.div((2 * x + 1) * f.xw, 2 * n), S.div((2 * y + 1) * f.yw, 2 * n)
            if S.symbolic:
                hit = [q for q in f.calls if S.identical(q[2], v)]
                S.ensures('filter at the centre of the cell', len(hit) == 1 and S.And(S.eq(hit[0][0], px), S.eq(hit[0][1], py)))
            else:
                S.ensures('filter at the centre of the cell', S.eq(v, (px * 1.25 + 3.) * (py * .5 + 1.)))
    s = film.get_sample_extent()
    sx, sy = S.real('sx', -6, 14), S.real('sy', -6, 14)
    p, q = S.int('p', -1, 10), S.int('q', -1, 10)
    reach = S.And(S.le(e[0], p), S.lt(p, e[1]), S.le(e[2], q), S.lt(q, e[3]),
                  S.le(S.abs(sx - p - S.num('0.5')), f.xw), S.le(S.abs(sy - q - S.num('0.5')), f.yw))
    S.ensures('samples that reach a pixel are drawn', S.Implies(reach, S.And(S.le(s[0], sx), S.lt(sx, s[1]), S.le(s[2], sy), S.lt(sy, s[3]))))
    S.ensures('whole pixels', S.And(*[S.eq(S.floor(x), x) for x in s]))


def film(S, symbolic_store=True):
    """a film in any reachable state"""
    m = S.mod(M)
    xs, ys = S.int('xs', -2, 4), S.int('ys', -2, 4)
    cx, cy = S.int('cx', 1, None if S.symbolic else 4), S.int('cy', 1, None if S.symbolic else 4)
    xw, yw = S.real('xw', .25, 4), S.real('yw', .25, 4)
    n = S.get('pytracer:FILTER_TABLE_SIZE')
    f = m.ImageFilm.__new__(m.ImageFilm)
    f.xResolution, f.yResolution, f.filename = S.int('xr', 1, 20), S.int('yr', 1, 20), 'out.png'
    f.filter = Rec(xw=xw, yw=yw, xwInv=S.div(1, xw), ywInv=S.div(1, yw))
    f.xPixel_start, f.yPixel_start, f.xPixel_cnt, f.yPixel_cnt = xs, ys, cx, cy
    if S.symbolic:
        f.filter_table = S.array('table', (n, n))
        st = Store(S, cx, cy)
        f.pixels = st.grid
        return f, st
    np = S.get('pytracer:np')
    f.filter_table = np.array([[((7 * a + 3 * b) % 11) / 4. - 1. for b in range(n)] for a in range(n)])
    f.pixels = np.empty([cx, cy], dtype=object)
    old = {}
    for i in range(cx):
        for j in range(cy):
            p = f.pixels[i][j] = m.ImageFilm.Pixel()
            p.Lxyz = np.array([S.real('L%d_%d_%d' % (i, j, k), 0, 4) for k in range(3)])
            p.splatXYZ = np.array([S.real('P%d_%d_%d' % (i, j, k), 0, 4) for k in range(3)])
            p.weight_sum = S.real('W%d_%d' % (i, j), -1, 4)
            old[i, j] = list(p.Lxyz) + [p.weight_sum] + list(p.splatXYZ)
    return f, old


class Store(object):
    """contents of all pixels as functions of the position: L (3), weight, splat (3)"""

    def __init__(self, S, n, m):
        self.S = S
        self.f = [S.array('s%d' % k, (n, m)) for k in range(7)]
        self.old = [a.copy() for a in self.f]
        self.grid = Grid(n, m, lambda i, j: Pix(self, i, j))
        self.grid.S = S

    def flush(self):
        for p in self.grid.items.values():
            p.flush()

    def value(self, k, p, q):
        self.flush()
        return self.f[k].at(p, q)

    def set_all(self, fn):
        """arbitrary state: contents given by a function of component and position"""
        from pyvc.npx import SArr
        self.grid.items.clear()
        self.f = [SArr(a.shape, (lambda k: lambda idx: fn(k, idx[0], idx[1]))(k)) for k, a in enumerate(self.f)]


class Lock(object):
    def __init__(self):
        self.held = 0

    def acquire(self, *a):
        self.held += 1
        return True

    def release(self):
        self.held -= 1

    def locked(self):
        return self.held > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Pix(object):
    def __init__(self, st, i, j):
        self.__dict__.update(st=st, i=i, j=j, out={}, lock=Lock())

    def _vec(self, base):
        if base not in self.out:
            import numpy
            a = numpy.empty(3, dtype=object)
            for k in range(3):
                a[k] = self.st.f[base + k].at(self.i, self.j)
            self.out[base] = (a, list(a))
        return self.out[base][0]

    def flush(self):
        for base, (a, was) in list(self.out.items()):
            for k in range(3):
                if a[k] is not was[k]:
                    self.st.f[base + k]._put((self.i, self.j), a[k])
                    was[k] = a[k]

    def __getattr__(self, n):
        if n == 'Lxyz':
            return self._vec(0)
        if n == 'splatXYZ':
            return self._vec(4)
        if n == 'weight_sum':
            return self.st.f[3].at(self.i, self.j)
        raise AttributeError(n)

    def __setattr__(self, n, v):
        from pyvc.sym import lift
        if n == 'weight_sum':
            self.st.f[3]._put((self.i, self.j), lift(v))
        elif n in ('Lxyz', 'splatXYZ'):
            base = 0 if n == 'Lxyz' else 4
            self.out.setdefault(base, (v, [self.st.f[base + k].at(self.i, self.j) for k in range(3)]))
            self.out[base] = (v, self.out[base][1])
            self.flush()
        else:
            self.__dict__[n] = v


def rgb(S, lo=0, hi=4):
    return S.mod('pytracer.spectral.spectrum').RGBSpectrum.create_from_list([S.real('c%d' % i, lo, hi) for i in range(3)])


def weight(S, f, X, Y, p, q):
    n = S.get('pytracer:FILTER_TABLE_SIZE')
    h = S.num('0.5')
    ix = S.min(n - 1, S.floor(S.abs((p - (X - h)) * n * f.filter.xwInv)))
    iy = S.min(n - 1, S.floor(S.abs((q - (Y - h)) * n * f.filter.ywInv)))
    return S.at(f.filter_table, iy, ix)


def covered(S, f, X, Y, p, q):
    h = S.num('0.5')
    return S.And(S.le(f.xPixel_start, p), S.lt(p, f.xPixel_start + f.xPixel_cnt), S.le(f.yPixel_start, q), S.lt(q, f.yPixel_start + f.yPixel_cnt),
                 S.le(S.abs(p - (X - h)), f.filter.xw), S.le(S.abs(q - (Y - h)), f.filter.yw))


@contract(P, F + '.add_sample', weight=3, **O)
def add_sample(S):
    """every pixel within the filter's half widths of the sample, and no other, gains the weight of its distance and the weighted colour"""
    f, st = film(S)
    L = rgb(S)
    X, Y = S.real('X', -4, 9), S.real('Y', -4, 9)
    xyz = L.to_xyz()
    pick = lambda k: xyz[k] if k < 3 else S.num(1)
    if S.symbolic:
        xs, ys = f.xPixel_start, f.yPixel_start
        y_ = {}

        def expect(done):
            def fn(k, i, j):
                if k > 3:
                    return st.old[k].at(i, j)
                p, q = i + xs, j + ys
                return S.If(S.And(covered(S, f, X, Y, p, q), done(p, q)), st.old[k].at(i, j) + weight(S, f, X, Y, p, q) * pick(k), st.old[k].at(i, j))
            return fn

        def state(done, name):
            p, q = S.fresh_int('p'), S.fresh_int('q')
            S.requires(S.And(S.le(xs, p), S.lt(p, xs + f.xPixel_cnt), S.le(ys, q), S.lt(q, ys + f.yPixel_cnt)))
            e = expect(done)
            for k in range(7):
                S.ensures('%s: component %d' % (name, k), S.eq(st.value(k, p - xs, q - ys), e(k, p - xs, q - ys)), 'inv')
            S.ensures('locks released', all(not c.lock.held for c in st.grid.items.values()), 'inv')
        row = lambda i: (lambda p, q: S.lt(q, i))
        part = lambda i, j: (lambda p, q: S.Or(S.lt(q, i), S.And(S.eq(q, i), S.lt(p, j))))

        def hv0(loc, i):
            st.set_all(expect(row(i)))
            return {}

        def hv1(loc, j):
            st.set_all(expect(part(ADD[0].i, j)))
            return {}
        ADD[0].use(S, hv0, lambda loc, i: state(row(i), 'rows'))
        ADD[1].use(S, hv1, lambda loc, j: state(part(ADD[0].i, j), 'row'))
    was = [L[i] for i in range(3)]
    f.add_sample(Rec(imageX=X, imageY=Y), L)
    if S.symbolic:
        p, q = S.int('p'), S.int('q')
        S.requires(S.And(S.le(xs, p), S.lt(p, xs + f.xPixel_cnt), S.le(ys, q), S.lt(q, ys + f.yPixel_cnt)))
        e = expect(lambda p, q: True)
        for k in range(7):
            S.ensures('weighted accumulation (component %d)' % k, S.eq(st.value(k, p - xs, q - ys), e(k, p - xs, q - ys)))
    else:
        for (i, j), o in st.items():
            px = f.pixels[i][j]
            p, q = f.xPixel_start + i, f.yPixel_start + j
            c = covered(S, f, X, Y, p, q)
            S.requires(c is not None)
            w = near_weight(S, f, X, Y, p, q) if c else 0.
            new = list(px.Lxyz) + [px.weight_sum] + list(px.splatXYZ)
            S.ensures('weighted accumulation', S.And(*[S.eq(new[k], o[k] + (w * pick(k) if k < 4 else 0.)) for k in range(7)]))
        S.ensures('locks released', all(not px.lock.locked() for r in f.pixels for px in r))
    S.ensures('spectrum unchanged', S.And(*[S.eq(L[i], was[i]) for i in range(3)]))


def near_weight(S, f, X, Y, p, q):
    n = S.get('pytracer:FILTER_TABLE_SIZE')
    for a, w in ((abs(p - (X - .5)), f.filter.xwInv), (abs(q - (Y - .5)), f.filter.ywInv)):
        t = a * n * w
        S.requires(abs(t - round(t)) > 1e-6 or round(t) >= n or t == round(t) == 0)
    return weight(S, f, X, Y, p, q)


@contract(P, F + '.splat', **O)
def splat(S):
    """the pixel containing the sample gains the colour, unweighted; nothing else changes"""
    f, st = film(S)
    L = rgb(S)
    X, Y = S.real('X', -4, 9), S.real('Y', -4, 9)
    xyz = L.to_xyz()
    f.splat(Rec(imageX=X, imageY=Y), L)
    xs, ys = f.xPixel_start, f.yPixel_start
    if S.symbolic:
        p, q = S.int('p'), S.int('q')
        S.requires(S.And(S.le(xs, p), S.lt(p, xs + f.xPixel_cnt), S.le(ys, q), S.lt(q, ys + f.yPixel_cnt)))
        cells = [(p - xs, q - ys)]
        new = lambda k, i, j: st.value(k, i, j)
        old = lambda k, i, j: st.old[k].at(i, j)
    else:
        cells = list(st)
        new = lambda k, i, j: (list(f.pixels[i][j].Lxyz) + [f.pixels[i][j].weight_sum] + list(f.pixels[i][j].splatXYZ))[k]
        old = lambda k, i, j: st[i, j][k]
    for i, j in cells:
        hit = S.And(S.le(xs + i, X), S.lt(X, xs + i + 1), S.le(ys + j, Y), S.lt(Y, ys + j + 1))
        for k in range(7):
            S.ensures('splat (component %d)' % k, S.eq(new(k, i, j), old(k, i, j) + (S.If(hit, xyz[k - 4], 0) if k > 3 else 0)))
    locks = [c.lock for c in st.grid.items.values()] if S.symbolic else [px.lock for r in f.pixels for px in r]
    S.ensures('locks released', all(not l.locked() for l in locks))


@contract(P, F + '.write_image', weight=2, **O)
def write(S):
    """the image at (row, column) is the weighted mean of the pixel's samples, no component negative, plus the scaled splats, and is handed
    on with the window it covers"""
    f, st = film(S)
    m, sp = S.mod(M), S.mod('pytracer.spectral.spectrum')
    scale = S.real('scale', 0, 3)
    got = []

    def sink(fn, img, alpha, *a):
        got.append((fn, img, alpha, a))
        return 'written'
    if S.symbolic:
        S.stub(I + ':write_image', sink)

        def value(img_old, i, j, k, old):
            c = sp.xyz2rgb([old(a, i, j) for a in range(3)])[k]
            w = old(3, i, j)
            s = sp.xyz2rgb([old(4 + a, i, j) for a in range(3)])[k]
            return S.If(S.eq(w, 0), c, S.max(0, S.div(c, S.If(S.eq(w, 0), 1, w)))) + scale * s
        raw = {}
        old = lambda k, i, j: st.old[k].at(i, j)

        def mk(done):
            from pyvc.npx import SArr

            def setup(loc):
                a = loc['rgb']
                if 'b' not in raw:
                    raw['b'] = S.array('raw', tuple(a.shape))
                a._get = lambda idx: S.If(done(idx[0], idx[1]), S.If(S.eq(idx[2], 0), value(None, idx[1], idx[0], 0, old), S.If(
                    S.eq(idx[2], 1), value(None, idx[1], idx[0], 1, old), value(None, idx[1], idx[0], 2, old))), raw['b'].at(*idx))
                st.grid.items.clear()
            return setup

        def state(done, loc):
            i, j = S.fresh_int('p'), S.fresh_int('q')
            S.requires(S.And(S.le(0, i), S.lt(i, f.xPixel_cnt), S.le(0, j), S.lt(j, f.yPixel_cnt)))
            for k in range(3):
                S.ensures('pixels so far', S.Implies(done(j, i), S.eq(loc['rgb'].at(j, i, k), value(None, i, j, k, old))), 'inv')
            for k in range(7):
                S.ensures('film unchanged', S.eq(st.value(k, i, j), st.old[k].at(i, j)), 'inv')
        row = lambda y: (lambda r, c: S.lt(r, y))
        part = lambda y, x: (lambda r, c: S.Or(S.lt(r, y), S.And(S.eq(r, y), S.lt(c, x))))

        def hv0(loc, i):
            mk(row(i))(loc)
            return {}

        def hv1(loc, j):
            mk(part(OUT[0].i, j))(loc)
            return {}
        OUT[0].use(S, hv0, lambda loc, i: state(row(i), loc))
        OUT[1].use(S, hv1, lambda loc, j: state(part(OUT[0].i, j), loc))
        r = f.write_image(scale)
        cells = [(S.int('p'), S.int('q'))]
        S.requires(S.And(S.le(0, cells[0][0]), S.lt(cells[0][0], f.xPixel_cnt), S.le(0, cells[0][1]), S.lt(cells[0][1], f.yPixel_cnt)))
        at = lambda img, j, i, k: img.at(j, i, k)
    else:
        real = m.iio.write_image
        m.iio.write_image = sink
        try:
            r = f.write_image(scale)
        finally:
            m.iio.write_image = real
        cells = list(st)

        def value(z, i, j, k, old):
            o = st[i, j]
            c = sp.xyz2rgb(o[:3])[k]
            return (c if o[3] == 0 else max(0., c / o[3])) + scale * sp.xyz2rgb(o[4:])[k]
        old = None
        at = lambda img, j, i, k: img[j, i, k]
    S.ensures('written once', len(got) == 1 and r == 'written')
    fn, img, alpha, a = got[0]
    S.ensures('to its file', fn == 'out.png' and alpha is None)
    S.ensures('window', S.And(*[S.eq(x, y) for x, y in zip(a, (f.xPixel_cnt, f.yPixel_cnt, f.xResolution, f.yResolution, f.xPixel_start, f.yPixel_start))] + [len(a) == 6]))
    S.ensures('rows by columns', S.And(S.eq(img.shape[0], f.yPixel_cnt), S.eq(img.shape[1], f.xPixel_cnt), S.eq(img.shape[2], 3)))
    for i, j in cells:
        for k in range(3):
            S.ensures('pixel value', S.eq(at(img, j, i, k), value(None, i, j, k, old)))
    if not S.symbolic:
        for (i, j), o in st.items():
            p = f.pixels[i][j]
            S.ensures('film unchanged', list(p.Lxyz) + [p.weight_sum] + list(p.splatXYZ) == o)


@contract(P, I + ':write_image', concrete_only=True, n=25, bounded='random images of at most 6 x 6 pixels through the real PNG codec')
def image_file(S):
    """a full frame becomes the file; a window is placed at its column and row offsets and leaves the rest of the file alone"""
    import os
    import shutil
    import tempfile
    import PIL.Image
    np = S.get('pytracer:np')
    w, h = S.int('w', 1, 6), S.int('h', 1, 6)
    full = np.array([[[S.real('f%d_%d_%d' % (y, x, k), 0, 2) for k in range(3)] for x in range(w)] for y in range(h)])
    d = tempfile.mkdtemp()
    try:
        fn = os.path.join(d, 'a.png')
        iio = S.mod(I)
        r = iio.write_image(fn, full.copy(), None, w, h, w, h, 0, 0)
        base = np.array(PIL.Image.open(fn))
        S.ensures('size', base.shape == (h, w, 3))
        S.ensures('returns what is written', (np.array(r) == base).all())
        for k in range(3):
            o = np.argsort(full[:, :, k].reshape(-1), kind='mergesort')
            v = base[:, :, k].reshape(-1)[o].astype(int)
            S.ensures('brightness order kept', (np.diff(v) >= 0).all())
            S.ensures('full range', full[:, :, k].max() == 0 or v[-1] >= 254)
        ww, hh = S.int('ww', 1, w), S.int('hh', 1, h)
        S.requires(ww < w or hh < h)
        ox, oy = S.int('ox', 0, w - ww), S.int('oy', 0, h - hh)
        win = np.array([[[S.real('g%d_%d_%d' % (y, x, k), 0, 2) for k in range(3)] for x in range(ww)] for y in range(hh)])
        gn = os.path.join(d, 'b.png')
        iio.write_image(gn, win.copy(), None, ww, hh, ww, hh, 0, 0)
        part = np.array(PIL.Image.open(gn))
        iio.write_image(fn, win.copy(), None, ww, hh, w, h, ox, oy)
        after = np.array(PIL.Image.open(fn))
        S.ensures('size kept', after.shape == base.shape)
        for y in range(h):
            for x in range(w):
                inn = ox <= x < ox + ww and oy <= y < oy + hh
                e = part[y - oy, x - ox] if inn else base[y, x]
                S.ensures('window placed' if inn else 'rest of the file kept', (after[y, x] == e).all())
    finally:
        shutil.rmtree(d)
