"""Polynomial back end: decides rational-function identities exactly.

term -> num/den with num,den sparse polynomials over Q in atoms (variables and
opaque function applications), reduced by  sqrt(E)^2 -> E,  sin^2 -> 1 - cos^2,
pow(x,a)*pow(x,b) -> pow(x,a+b)  and by hypothesis equalities.
"""
from fractions import Fraction

import z3


class NotPoly(Exception):
    pass


class P:
    """sparse polynomial: dict monomial(tuple of (atom,exp) sorted) -> Fraction"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return P({(): c} if c else {})

    def __add__(self, o):
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)

    def neg(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, k):
        return P({m: c * k for m, c in self.d.items()}) if k else P()

    def __mul__(self, o):
        if len(self.d) * len(o.d) > 400000:
            raise NotPoly('too large')
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return P(d)

    def is_zero(self):
        return not self.d

    def is_const(self):
        return all(m == () for m in self.d)

    def cval(self):
        return self.d.get((), Fraction(0))

    def __eq__(self, o):
        return self.d == o.d


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    for v, e in b:
        r[v] = r.get(v, 0) + e
    return tuple(sorted(r.items()))


def mdiv(a, b):
    """monomial quotient or None"""
    r = dict(a)
    for v, e in b:
        k = r.get(v, 0) - e
        if k < 0:
            return None
        if k:
            r[v] = k
        else:
            del r[v]
    return tuple(sorted(r.items()))


class Norm:
    def __init__(self, max_terms=60000):
        self.atoms = {}      # z3 ast id -> index
        self.terms = []      # index -> z3 term
        self.kind = []       # index -> (kind, payload)
        self.cache = {}
        self.hyps = []       # [(leading var, exp, P rest)]  v^exp -> rest
        self.mrules = []     # [(monomial, P rest)]  Groebner basis of the hypotheses: monomial -> rest
        self.max_terms = max_terms

    def atom(self, t, kind=('var', None)):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.terms)
            self.terms.append(t)
            self.kind.append(kind)
        return self.atoms[k]

    def rf(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._rf(t)
            if len(r[0].d) > self.max_terms or len(r[1].d) > self.max_terms:
                raise NotPoly('too many terms')
            self.cache[k] = r
        return r

    def _rf(self, t):
        one = P.const(1)
        if z3.is_rational_value(t):
            return P.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), one
        if z3.is_int_value(t):
            return P.const(t.as_long()), one
        if not z3.is_app(t):
            raise NotPoly('quantified')
        dk = t.decl().kind()
        if dk == z3.Z3_OP_ADD:
            return self._sum([(self.rf(c), 1) for c in t.children()])
        if dk == z3.Z3_OP_SUB:
            cs = t.children()
            return self._sum([(self.rf(cs[0]), 1)] + [(self.rf(c), -1) for c in cs[1:]])
        if dk == z3.Z3_OP_UMINUS:
            n, d = self.rf(t.arg(0))
            return n.neg(), d
        if dk == z3.Z3_OP_MUL:
            n, d = one, one
            for c in t.children():
                cn, cd = self.rf(c)
                n, d = self.red(n * cn), self.red(d * cd)
            return n, d
        if dk == z3.Z3_OP_DIV and t.sort() == z3.RealSort():
            an, ad = self.rf(t.arg(0))
            bn, bd = self.rf(t.arg(1))
            if bn.is_zero():
                raise NotPoly('zero divisor')
            if an == bn:
                return bd, ad
            n, d = self.red(an * bd), self.red(ad * bn)
            if d.is_const() and not d.is_zero():
                return n.scale(1 / d.cval()), one
            return n, d
        if dk == z3.Z3_OP_POWER:
            e = t.arg(1)
            if z3.is_rational_value(e) and e.denominator_as_long() == 1 and 0 <= e.numerator_as_long() <= 12:
                n, d = one, one
                bn, bd = self.rf(t.arg(0))
                for _ in range(e.numerator_as_long()):
                    n, d = self.red(n * bn), self.red(d * bd)
                return n, d
        if dk == z3.Z3_OP_TO_REAL:
            return self.rf(t.arg(0))
        name = t.decl().name()
        if name == 'sqrt' and t.num_args() == 1:
            i = self.atom(t, ('sqrt', None))
            if self.kind[i][1] is None:
                self.kind[i] = ('sqrt', self.rf(t.arg(0)))
            return P({((i, 1),): Fraction(1)}), one
        if name in ('sin', 'cos') and t.num_args() == 1:
            import pyvc.sym as S
            if name == 'sin':
                c = self.atom(S._UF['cos'](t.arg(0)))
                i = self.atom(t, ('sin', c))
            else:
                i = self.atom(t)
            return P({((i, 1),): Fraction(1)}), one
        i = self.atom(t)
        return P({((i, 1),): Fraction(1)}), one

    def _sum(self, parts):
        (n, d), s = parts[0]
        if s < 0:
            n = n.neg()
        for (pn, pd), s in parts[1:]:
            if s < 0:
                pn = pn.neg()
            if pd == d:
                n = n + pn
            elif pd.is_const():
                n = n + self.red(pn * d).scale(1 / pd.cval())
            elif d.is_const():
                n = self.red(n * pd).scale(1 / d.cval()) + pn
                d = pd
            else:
                n = self.red(n * pd) + self.red(pn * d)
                d = self.red(d * pd)
        return self.red(n), d

    # -- reduction (polynomial part): only rules with polynomial rhs
    def red(self, p):
        rules = {}
        for i, k in enumerate(self.kind):
            if k[0] == 'sin':
                rules[i] = (2, P({(): Fraction(1), ((k[1], 2),): Fraction(-1)}))
            elif k[0] == 'sqrt' and k[1] is not None and k[1][1].is_const():
                rules[i] = (2, k[1][0].scale(1 / k[1][1].cval()))
        for v, e, rest in self.hyps:
            if v not in rules or e < rules[v][0]:
                rules[v] = (e, rest)
        if self.mrules:
            return self.red_ideal(p, rules)
        return self.red_rules(p, rules)

    def red_ideal(self, p, rules):
        for _ in range(400):
            p = self.red_rules(p, rules)
            for lm, rest in self.mrules:
                keep, acc, hit = {}, P(), False
                for m, c in p.d.items():
                    q = mdiv(m, lm)
                    if q is None:
                        keep[m] = c
                    else:
                        acc, hit = acc + P({q: c}) * rest, True
                if hit:
                    p = P(keep) + acc
                    break
            else:
                return p
            if len(p.d) > self.max_terms:
                raise NotPoly('too many terms')
        raise NotPoly('reduction diverges')

    def add_ideal(self, eqs):
        import sympy
        ps, other = [], []
        for a, b in eqs:
            try:
                an, ad = self.rf(a)
                bn, bd = self.rf(b)
            except NotPoly:
                continue
            if ad.is_const() and bd.is_const():
                p = an.scale(1 / ad.cval()) - bn.scale(1 / bd.cval())
                if all(self.kind[v][0] == 'var' and z3.is_const(self.terms[v]) for m in p.d for v, _ in m):
                    ps.append(p)
                    continue
            other.append((a, b))
        vs = sorted({v for p in ps for m in p.d for v, _ in m})
        sy = {v: sympy.Symbol('v%d' % v) for v in vs}
        ex = []
        for p in ps:
            e = sympy.Integer(0)
            for m, c in p.d.items():
                t = sympy.Rational(c.numerator, c.denominator)
                for v, k in m:
                    t *= sy[v] ** k
                e += t
            ex.append(e)
        if ex:
            g = sympy.groebner(ex, *[sy[v] for v in vs], order='grevlex')
            for q in g.polys:
                ts = q.terms(order='grevlex')
                conv = [(tuple((vs[i], k) for i, k in enumerate(m) if k), Fraction(int(sympy.numer(c)), int(sympy.denom(c)))) for m, c in ts]
                lm, lc = conv[0]
                self.mrules.append((lm, P({m: -c / lc for m, c in conv[1:]})))
        return other

    def red_rules(self, p, rules):
        if not rules:
            return p
        for _ in range(200):
            hit = None
            for m in p.d:
                for v, e in m:
                    if v in rules and e >= rules[v][0]:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            k, rhs = rules[hit]
            keep, acc = {}, P()
            for m, c in p.d.items():
                e = dict(m).get(hit, 0)
                if e >= k:
                    mm = dict(m)
                    mm[hit] = e - k
                    if mm[hit] == 0:
                        del mm[hit]
                    acc = acc + P({tuple(sorted(mm.items())): c}) * rhs
                else:
                    keep[m] = c
            p = P(keep) + acc
            if len(p.d) > self.max_terms:
                raise NotPoly('too many terms')
        raise NotPoly('reduction diverges')

    def red_full(self, p):
        """p == 0 ?  also uses sqrt of rational functions by clearing denominators"""
        p = self.red(p)
        for _ in range(50):
            hit = None
            for m in p.d:
                for v, e in m:
                    if self.kind[v][0] == 'sqrt' and e >= 2 and not self.kind[v][1][1].is_const():
                        hit = v
            if hit is None:
                return p
            n, d = self.kind[hit][1]
            mx = max(dict(m).get(hit, 0) // 2 for m in p.d)
            acc = P()
            for m, c in p.d.items():
                e = dict(m).get(hit, 0)
                q = e // 2
                mm = dict(m)
                mm.pop(hit, None)
                if e % 2:
                    mm[hit] = 1
                r = P({tuple(sorted(mm.items())): c})
                for _i in range(q):
                    r = r * n
                for _i in range(mx - q):
                    r = r * d
                acc = acc + r
            p = self.red(acc)
        raise NotPoly('diverge')

    def add_hyp_eq(self, a, b):
        """use hypothesis a == b as a rewrite rule v^e -> rest, when possible"""
        try:
            an, ad = self.rf(a)
            bn, bd = self.rf(b)
            if not (ad.is_const() and bd.is_const()):
                return
            p = self.red(an.scale(1 / ad.cval()) - bn.scale(1 / bd.cval()))
        except NotPoly:
            return
        if p.is_zero() or len(p.d) > 60:
            return
        # leading: monomial that is a pure power v^e, v not elsewhere
        best = None
        if len(an.d) == 1 and not z3.is_const(a):
            m, = an.d
            if len(m) == 1 and m[0][1] == 1 and m in p.d \
                    and not any(dict(m2).get(m[0][0], 0) for m2 in p.d if m2 != m):
                v = m[0][0]
                self.hyps.append((v, 1, P({k: -y / p.d[m] for k, y in p.d.items() if k != m})))
                return
        for x in (a, b):
            # definition  x = expression
            if z3.is_const(x) and x.get_id() in self.atoms:
                v = self.atoms[x.get_id()]
                m = ((v, 1),)
                if m in p.d and not any(v == h[0] for h in self.hyps) and not any(dict(m2).get(v, 0) for m2 in p.d if m2 != m):
                    self.hyps.append((v, 1, P({k: -y / p.d[m] for k, y in p.d.items() if k != m})))
                    return
        for m, c in p.d.items():
            if len(m) == 1:
                v, e = m[0]
                if any(v == h[0] for h in self.hyps) or self.kind[v][0] != 'var':
                    continue
                if all(m2 == m or dict(m2).get(v, 0) < e for m2 in p.d) and e <= 2:
                    if e == 1 and any(dict(m2).get(v, 0) for m2 in p.d if m2 != m):
                        continue
                    cand = (-e if e == 1 else e, v)
                    if best is None or (e, v) > (best[1], best[0]):
                        best = (v, e, m, c)
        if best:
            v, e, m, c = best
            rest = P({k: -x / c for k, x in p.d.items() if k != m})
            self.hyps.append((v, e, rest))

    def eq_zero(self, a, b):
        an, ad = self.rf(a)
        bn, bd = self.rf(b)
        if ad == bd:
            p = an - bn
        else:
            p = self.red(an * bd) - self.red(bn * ad)
        return self.red_full(p).is_zero()


def proves_eq(a, b, hyps=(), max_terms=60000):
    """True if a == b follows by rational-function algebra (denominators are
    nonzero by separate obligations / assumptions)."""
    try:
        n = Norm(max_terms)
        if n.eq_zero(a, b):
            return True
        if hyps:
            n = Norm(max_terms)
            for x, y in hyps:
                n.add_hyp_eq(x, y)
            n.cache = {}
            return n.eq_zero(a, b)
    except (NotPoly, RecursionError):
        pass
    return False


# ------------------------------------------------------------ differentiation
def diff(t, x):
    """d t / d x  as z3 term (x a z3 Real const)."""
    import pyvc.sym as S
    R = z3.RealVal
    cache = {}

    def D(t):
        k = t.get_id()
        if k not in cache:
            cache[k] = _D(t)
        return cache[k]

    def mul(*fs):
        fs = [f for f in fs if not (z3.is_rational_value(f) and f.numerator_as_long() == f.denominator_as_long() == 1)]
        if any(z3.is_rational_value(f) and f.numerator_as_long() == 0 for f in fs):
            return R(0)
        if not fs:
            return R(1)
        r = fs[0]
        for f in fs[1:]:
            r = r * f
        return r

    def add(fs):
        fs = [f for f in fs if not (z3.is_rational_value(f) and f.numerator_as_long() == 0)]
        if not fs:
            return R(0)
        r = fs[0]
        for f in fs[1:]:
            r = r + f
        return r

    def zero(f):
        return z3.is_rational_value(f) and f.numerator_as_long() == 0

    def _D(t):
        if t.eq(x):
            return R(1)
        if z3.is_rational_value(t) or t.num_args() == 0:
            return R(0)
        dk = t.decl().kind()
        ch = t.children()
        if dk == z3.Z3_OP_ADD:
            return add([D(c) for c in ch])
        if dk == z3.Z3_OP_SUB:
            r = D(ch[0])
            for c in ch[1:]:
                dc = D(c)
                if not zero(dc):
                    r = r - dc
            return r
        if dk == z3.Z3_OP_UMINUS:
            d = D(ch[0])
            return d if zero(d) else -d
        if dk == z3.Z3_OP_MUL:
            out = []
            for i, c in enumerate(ch):
                d = D(c)
                if not zero(d):
                    out.append(mul(d, *[ch[j] for j in range(len(ch)) if j != i]))
            return add(out)
        if dk == z3.Z3_OP_DIV:
            a, b = ch
            da, db = D(a), D(b)
            if zero(db):
                return R(0) if zero(da) else da / b
            if zero(da):
                return -mul(a, db) / (b * b)
            return (mul(da, b) - mul(a, db)) / (b * b)
        if dk == z3.Z3_OP_ITE:
            c, a, b = ch
            return z3.If(c, D(a), D(b))
        n = t.decl().name()
        u = S._UF
        if n == 'sqrt':
            d = D(ch[0])
            return R(0) if zero(d) else d / (2 * t)
        if n == 'sin':
            return mul(u['cos'](ch[0]), D(ch[0]))
        if n == 'cos':
            d = D(ch[0])
            return R(0) if zero(d) else -mul(u['sin'](ch[0]), d)
        if n == 'exp':
            return mul(t, D(ch[0]))
        if n == 'log':
            d = D(ch[0])
            return R(0) if zero(d) else d / ch[0]
        if n == 'acos':
            d = D(ch[0])
            return R(0) if zero(d) else -d / u['sqrt'](1 - ch[0] * ch[0])
        if n == 'asin':
            d = D(ch[0])
            return R(0) if zero(d) else d / u['sqrt'](1 - ch[0] * ch[0])
        if n == 'atan':
            d = D(ch[0])
            return R(0) if zero(d) else d / (1 + ch[0] * ch[0])
        if n == 'pow':
            a, e = ch
            da = D(a)
            if not zero(D(e)):
                raise NotPoly('d pow exponent')
            return R(0) if zero(da) else mul(e, t, da) / a
        raise NotPoly('cannot differentiate ' + n)
    return D(t)


# ------------------------------------------------------------ cancellation
def _dense(m, n):
    v = [0] * n
    for a, e in m:
        v[a] = e
    return (sum(v),) + tuple(v)


def exact_div(n, d, lim=4000):
    """polynomial q with n == q * d, or None"""
    if d.is_const():
        return n.scale(1 / d.cval()) if d.d else None
    nv = 1 + max([a for p in (n, d) for m in p.d for a, _ in m] or [0])
    key = lambda m: _dense(m, nv)
    lm = max(d.d, key=key)
    lc, ld = d.d[lm], dict(lm)
    q, r, k = {}, n, 0
    while r.d:
        k += 1
        if k > lim:
            return None
        m = max(r.d, key=key)
        dm = dict(m)
        for a, e in ld.items():
            if dm.get(a, 0) < e:
                return None
            dm[a] -= e
        qm = tuple(sorted((a, e) for a, e in dm.items() if e))
        c = r.d[m] / lc
        q[qm] = c
        r = r - P({qm: c}) * d
    return P(q)


class Canceller(Norm):
    """keeps every visited term alive so that the cache stays valid"""

    def __init__(self):
        Norm.__init__(self, 1500)
        self.keep = []

    def rf(self, t):
        k = t.get_id()
        if k not in self.cache:
            self.keep.append(t)
        return Norm.rf(self, t)

    def term(self, p):
        if not p.d:
            return z3.RealVal(0)
        out = []
        for m, c in sorted(p.d.items()):
            fs = []
            for a, e in m:
                x = self.terms[a]
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                fs += [x] * e
            if c != 1 or not fs:
                fs.insert(0, z3.RealVal(str(c)))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            out.append(t)
        t = out[0]
        for x in out[1:]:
            t = t + x
        return t


_canc = [None]


def canceller(ctx):
    if not ctx.rewrites:
        if _canc[0] is None or len(_canc[0].keep) > 60000:
            _canc[0] = Canceller()
        return _canc[0]
    if ctx.canc is None:
        c = Canceller()
        rw = ctx.rewrites
        for a, b in rw:
            c.keep += [a, b]
        if ctx.ideal:
            rw = c.add_ideal(rw)
        for a, b in rw:
            c.add_hyp_eq(a, b)
        c.cache = {}
        ctx.canc = c
    return ctx.canc


def has_div(t, depth=4):
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k == z3.Z3_OP_DIV:
        return True
    if depth and k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return any(has_div(c, depth - 1) for c in t.children())
    return False


def cancel(t, ctx, max_out=16):
    """t with a common divisor removed when its normal form is a short polynomial"""
    if not has_div(t):
        if not ctx.ideal or z3.is_mul(t):
            return t
        max_out = 12
    c = canceller(ctx)
    try:
        n, d = c.rf(t)
        if ctx.ideal:
            n, d = c.red(n), c.red(d)
        q = exact_div(n, d)
    except (NotPoly, RecursionError):
        return t
    if q is None or len(q.d) > max_out:
        return t
    return c.term(q)


def known_root(t, ctx):
    """the hinted nonnegative term whose square is t"""
    c = canceller(ctx)
    for r in ctx.sqrt_hints:
        try:
            c.keep.append(r)
            if c.eq_zero(t, r * r):
                return r
        except (NotPoly, RecursionError):
            pass
    return None


def canon(t, ctx, max_out=60, quotient=False):
    """normal form of t when it is a short polynomial or a quotient of short polynomials, else t"""
    c = canceller(ctx)
    try:
        n, d = c.rf(t)
        n, d = c.red(n), c.red(d)
        q = n if d == P.const(1) else exact_div(n, d)
        if q is None:
            m = 8 if quotient is True else quotient
            if not quotient or len(n.d) > m or len(d.d) > m:
                return t
            k = d.d[min(d.d)]
            return c.term(n.scale(1 / k)) / c.term(d.scale(1 / k))
    except (NotPoly, RecursionError):
        return t
    if len(q.d) > max_out:
        return t
    return c.term(q)
