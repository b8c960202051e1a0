"""C09: tabulated distributions of any size."""
from pyvc import api
from pyvc.api import contract

M = 'pytracer.montecarlo.distribution'
P = 'C09'
D1, D2 = M + ':Distribution1D', M + ':Distribution2D'
O = dict(cancel=True, div='assume', sqrt='assume')
INIT = api.cut(M, 'Distribution1D.__init__')


def size(S, name='n'):
    n = S.int(name, 1, None if S.symbolic else 7)
    return n


def table(S, n, name='f'):
    f = S.array(name, n, 0, None)
    return f


@contract(P, D1 + '.__init__', **O)
def construct(S):
    """the table of partial sums: starts at 0, grows by the value over the total, ends at 1"""
    n = size(S)
    f = table(S, n)
    cut_init(S, f)
    if not S.symbolic:
        S.requires(sum(f) > 0)
        f0 = f.copy()
    d = S.mod(M).Distribution1D(f)
    S.ensures('size', S.eq(d.cnt, n))
    raw = d.cdf_raw
    S.requires(S.lt(0, raw), 'some value is positive')
    k = S.int('k', 0, n - 1)
    S.ensures('starts at zero', S.eq(S.at(d.cdf, 0), 0))
    S.ensures('ends at one', S.eq(S.at(d.cdf, n), 1))
    S.ensures('grows by each value over the total', S.eq((S.at(d.cdf, k + 1) - S.at(d.cdf, k)) * raw * n, S.at(f, k)))
    S.ensures('values kept', S.eq(S.at(d.func, k), S.at(f, k)))
    if not S.symbolic:
        S.ensures('total', S.eq(raw * n, sum(f)))
        S.ensures('argument unchanged', bool((f == f0).all()) and d.func is not f)


def cut_init(S, f):
    if not S.symbolic:
        return
    n = f.shape[0]
    from pyvc.npx import SArr, Sym

    def havoc(loc, i):
        done = i - INIT.lo + 1

        def facts(a, idx):
            k = idx[0]
            c = [S.Implies(S.eq(k, 0), S.eq(a.at(0), 0))]
            if not (isinstance(k, int) and k == 0):
                c.append(S.Implies(S.And(S.le(1, k), S.lt(k, done)), S.eq((a.at(k) - a.at(k - 1)) * n, f.at(k - 1))))
            return c
        me = loc['self']
        # only the element k is unfolded on a read: bound the recursion k -> k-1 -> ...
        depth = [0]

        def lim(a, idx):
            if depth[0] > 1:
                return True
            depth[0] += 1
            try:
                return facts(a, idx)
            finally:
                depth[0] -= 1
        c = SArr.base('cdf', (n + 1,), lim)
        me.cdf._get = c._get
        # a running total is the last partial sum
        return {x: c.at(done - 1) for x in running(loc)}

    def running(loc):
        return [x for x in INIT.stored if x in loc and isinstance(loc[x], (int, float, Sym)) and not isinstance(loc[x], bool)]

    def check(loc, i):
        a = loc['self'].cdf
        S.ensures('invariant: starts at zero', S.eq(a.at(0), 0), 'inv')
        k = S.fresh_int('k')
        done = i - INIT.lo + 1
        S.ensures('invariant: partial sums', S.Implies(S.And(S.le(1, k), S.lt(k, done)), S.eq((a.at(k) - a.at(k - 1)) * n, f.at(k - 1))), 'inv')
        S.ensures('invariant: size', S.And(S.eq(loc['self'].cnt, n), S.eq(a.shape[0], n + 1)), 'inv')
        for x in running(loc):
            if x in INIT.carried:
                S.ensures('invariant: running total', S.eq(loc[x], a.at(done - 1)), 'inv')
    INIT.use(S, havoc, check)


def dist(S, n, f, name='c', raw=None, cdf=None):
    """an object satisfying the invariant established by the constructor (construct); raw > 0 is the mean of the table"""
    m = S.mod(M)
    if not S.symbolic:
        S.requires(sum(f) > 0)
        return m.Distribution1D(f)
    d = m.Distribution1D.__new__(m.Distribution1D)
    if raw is None:
        raw = S.fresh('raw', 0)
        S.requires(S.lt(0, raw))
    pos = S.lt(0, raw)
    busy = [0]

    def facts(a, idx):
        k = idx[0]
        v = a.at(k)
        c = [S.Implies(S.And(pos, S.le(0, k), S.le(k, n)), S.And(S.le(0, v), S.le(v, 1))),
             S.Implies(S.And(pos, S.eq(k, 0)), S.eq(v, 0)), S.Implies(S.And(pos, S.eq(k, n)), S.eq(v, 1))]
        if not busy[0]:
            busy[0] = 1
            try:
                c.append(S.Implies(S.And(pos, S.le(0, k), S.lt(k, n)), S.eq((a.at(k + 1) - v) * (n * raw), f.at(k))))
                c.append(S.Implies(S.And(pos, S.lt(0, k), S.le(k, n)), S.eq((v - a.at(k - 1)) * (n * raw), f.at(k - 1))))
            finally:
                busy[0] = 0
        return c
    d.cnt, d.func, d.cdf_raw = n, f, raw
    d.cdf = S.array(name, n + 1, facts=lambda a, k: facts(a, [k])) if cdf is None else Facts(cdf, facts)
    return d


def Facts(cdf, facts):
    from pyvc.npx import SArr
    from pyvc.sym import ctx, bterm
    raw = SArr(cdf.shape, cdf._get)

    def get(idx):
        v = cdf._get(idx)
        for b in facts(raw, list(idx)):
            ctx().add_pc(bterm(b))
        return v
    return SArr(cdf.shape, get)


def segment(S, d, n, x):
    """the segment of [0, 1) containing x"""
    k = S.floor(x * n)
    return k


@contract(P, D1 + '.sample_cont', **O)
def sample_continuous(S):
    """inverse of the piecewise linear distribution function, with the density of the segment"""
    n = size(S)
    f = table(S, n)
    d = dist(S, n, f)
    u = S.real('u', 0, 1)
    S.requires(S.lt(u, 1))
    sn = S.snap(d) if not S.symbolic else None
    x, pdf = d.sample_cont(u)
    if not S.symbolic:
        S.ensures('distribution unchanged', S.unchanged(d, sn))
        S.requires(abs(x * n - round(x * n)) > 1e-6)
    k = S.floor(x * n)
    S.ensures('in range', S.And(S.le(0, k), S.lt(k, n), S.le(0, x), S.lt(x, 1)))
    S.ensures('inverse of the distribution function', S.eq((u - S.at(d.cdf, k)) * n * d.cdf_raw, (x * n - k) * S.at(f, k)))
    S.ensures('density of the segment', S.eq(pdf * d.cdf_raw, S.at(f, k)))
    S.ensures('never a segment of zero density', S.lt(0, pdf))


@contract(P, D1 + '.sample_dis', **O)
def sample_discrete(S):
    n = size(S)
    f = table(S, n)
    d = dist(S, n, f)
    u = S.real('u', 0, 1)
    S.requires(S.lt(u, 1))
    k, p = d.sample_dis(u)
    S.ensures('in range', S.And(S.le(0, k), S.lt(k, n)))
    S.ensures('chosen exactly when u falls in its share', S.And(S.le(S.at(d.cdf, k), u), S.lt(u, S.at(d.cdf, k + 1)) if S.symbolic else
                                                            S.le(u, S.at(d.cdf, k + 1))))
    S.ensures('probability of the entry', S.eq(p * d.cdf_raw * n, S.at(f, k)))
    S.ensures('probability is the width of its share', S.eq(p, S.at(d.cdf, k + 1) - S.at(d.cdf, k)))
    S.ensures('never an entry of zero weight', S.lt(0, p))


# ------------------------------------------------------------------- two dimensions
ROWS, MARG = api.cut(M, 'Distribution2D.__init__', 0), api.cut(M, 'Distribution2D.__init__', 1)


def grid(S):
    nv, nu = size(S, 'nv'), size(S, 'nu')
    return nv, nu, S.array('f', (nv, nu), 0, None)


def dist2(S):
    """nv x nu table and the object built from it (by the constructor's contract construct2)"""
    m = S.mod(M)
    nv, nu, f = grid(S)
    if not S.symbolic:
        if S.bool('blackrow'):
            f[0] = 0
        S.requires(f.sum() > 0)
        return m.Distribution2D(f), nv, nu, f, None
    d = m.Distribution2D.__new__(m.Distribution2D)
    raws = S.array('rowmean', nv, 0)
    cdfs = S.array('row', (nv, nu + 1))
    d.p_cond_v = S.list(nv, lambda k: dist(S, nu, f[k], 'row', raws.at(k), cdfs[k]))
    d.p_marg_v = dist(S, nv, raws, 'marg')
    return d, nv, nu, f, raws


@contract(P, [D2 + '.sample_cont', D2 + '.pdf'], **O)
def sample_grid(S):
    """first the row by its total, then the position in the row; the density is the cell's value over the mean"""
    d, nv, nu, f, raws = dist2(S)
    u0, u1 = S.real('u0', 0, 1), S.real('u1', 0, 1)
    S.requires(S.And(S.lt(u0, 1), S.lt(u1, 1)))
    (u, v), pdf = d.sample_cont(u0, u1)
    if not S.symbolic:
        S.requires(abs(u * nu - round(u * nu)) > 1e-6 and abs(v * nv - round(v * nv)) > 1e-6)
    ku, kv = S.floor(u * nu), S.floor(v * nv)
    mg, row = d.p_marg_v, d.p_cond_v[kv if S.symbolic else int(kv)]
    S.ensures('in the unit square', S.And(S.le(0, u), S.lt(u, 1), S.le(0, v), S.lt(v, 1)))
    S.ensures('row by the marginal distribution', S.eq((u1 - S.at(mg.cdf, kv)) * nv * mg.cdf_raw, (v * nv - kv) * S.at(mg.func, kv)))
    S.ensures('position by the conditional distribution', S.eq((u0 - S.at(row.cdf, ku)) * nu * row.cdf_raw, (u * nu - ku) * S.at(f, kv, ku)))
    S.ensures('density is the value over the mean', S.eq(pdf * mg.cdf_raw, S.at(f, kv, ku)))
    S.ensures('positive density', S.lt(0, pdf))
    S.ensures('pdf() agrees with the sample', S.eq(d.pdf(u, v), pdf))


@contract(P, D2 + '.pdf', **O)
def density_grid(S):
    d, nv, nu, f, raws = dist2(S)
    u, v = S.real('u', 0, 1), S.real('v', 0, 1)
    ku, kv = S.min(S.floor(u * nu), nu - 1), S.min(S.floor(v * nv), nv - 1)
    if S.symbolic:
        # the mean of a row of nonnegative values is zero only if they all are
        S.requires(S.le(S.at(f, kv, ku), raws.at(kv) * nu))
    p = d.pdf(u, v)
    S.ensures('value of the cell over the mean', S.eq(p * d.p_marg_v.cdf_raw, S.at(f, kv, ku)))
    S.ensures('nonnegative', S.le(0, p))


@contract(P, D2 + '.__init__', **O)
def construct2(S):
    """one conditional distribution per row; the marginal is over the row means"""
    m = S.mod(M)
    nv, nu, f = grid(S)
    if S.symbolic:
        D1c = m.Distribution1D
        raws = S.array('rowmean', nv, 0)      # the mean Distribution1D computes for each row (construct)
        made = []

        def mk(arr):
            if arr.__class__.__name__ == 'SArr':
                # which row is it: the harness only needs its contents
                o = D1c.__new__(D1c)
                o.cnt, o.func = arr.shape[0], arr
                o.cdf_raw = raws.at(ROWS.i)
                return o
            o = D1c.__new__(D1c)
            o.cnt, o.func = arr.__vlen__(), arr
            made.append(o)
            return o
        S.stub(M + ':Distribution1D', mk)

        def row(k):
            r = Row()
            r.cnt, r.func, r.cdf_raw = nu, f[k], raws.at(k)
            return r

        def havoc_rows(loc, i):
            loc['self'].p_cond_v = S.list(i, row)
            return {}

        def check_rows(loc, i):
            l = loc['self'].p_cond_v
            n = len(l) if isinstance(l, list) else l.__vlen__()
            S.ensures('one distribution per row', S.eq(n, i), 'inv')
            if not isinstance(l, list) and l.new:
                j = S.fresh_int('j')
                S.requires(S.And(S.le(0, j), S.lt(j, nu)))
                r = l.new[-1]
                S.ensures('of the values of the row', S.And(S.eq(r.cnt, nu), S.eq(r.func.at(j), f.at(i - 1, j))), 'inv')

        def havoc_marg(loc, i):
            return {'marginal_v': S.list(i, lambda k: raws.at(k))} if 'marginal_v' in loc else {}

        def check_marg(loc, i):
            l = loc['marginal_v']
            n = len(l) if isinstance(l, list) else l.__vlen__()
            S.ensures('one mean per row', S.eq(n, i), 'inv')
            if not isinstance(l, list) and l.new:
                S.ensures('mean of the row', S.eq(l.new[-1], raws.at(i - 1)), 'inv')
        ROWS.use(S, havoc_rows, check_rows)
        MARG.use(S, havoc_marg, check_marg)
    else:
        f0 = f.copy()
    D = m.Distribution2D
    d = D(f)
    k, j = S.int('k', 0, nv - 1), S.int('j', 0, nu - 1)
    r = d.p_cond_v[k]
    S.ensures('conditional distribution of the row', S.And(S.eq(r.cnt, nu), S.eq(S.at(r.func, j), S.at(f, k, j))))
    S.ensures('marginal over the row means', S.And(S.eq(d.p_marg_v.cnt, nv), S.eq(d.p_marg_v.func[k], r.cdf_raw)))
    if not S.symbolic:
        S.ensures('row mean', S.eq(r.cdf_raw * nu, f[k].sum()))
        S.ensures('argument unchanged', bool((f == f0).all()))


class Row(object):
    pass
