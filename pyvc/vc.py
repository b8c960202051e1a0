"""Path exploration and discharge of verification conditions."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import poly, sym
from .sym import (Ctx, PathEnd, SBool, Sym, Unsupported, PI_T, _UF, bterm)


# ------------------------------------------------------------------ axioms
_apps = {}
_apps_n = [0]
_EMPTY = {}


def apps_of(t):
    """the uninterpreted applications below one term, memoised for every subterm"""
    r = _apps.get(t.get_id())
    if r is not None:
        return r[1]
    stack = [t]
    while stack:
        t = stack[-1]
        k = t.get_id()
        if k in _apps:
            stack.pop()
            continue
        ch = [t.body()] if z3.is_quantifier(t) else t.children()
        todo = [c for c in ch if c.get_id() not in _apps]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        subs = [_apps[c.get_id()][1] for c in ch]
        subs = [x for x in subs if x]
        own = False
        if z3.is_app(t):
            if ch:
                own = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in _UF
            else:
                own = t.eq(PI_T)
        if not subs and not own:
            out = _EMPTY
        elif len(subs) == 1 and not own:
            out = subs[0]
        else:
            out = {}
            for x in subs:
                out.update(x)
            if own:
                out[k] = t
        _apps[k] = (t, out)
    return _apps[k][1]


def collect_apps(ts):
    """uninterpreted arithmetic applications below the terms (by ast id)"""
    if len(_UF) != _apps_n[0]:
        _apps.clear()
        _apps_n[0] = len(_UF)
    out = {}
    for t in ts:
        out.update(apps_of(t))
    return out


def axioms_for(t):
    """facts about one application (true statements about the reals)"""
    u = _UF
    if t.eq(PI_T):
        return [t > z3.Q(314159, 100000), t < z3.Q(314160, 100000)]
    n = t.decl().name()
    a = t.arg(0)
    if n == 'sqrt':
        return [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
    if n in ('sin', 'cos'):
        s, c = u['sin'](a), u['cos'](a)
        ax = [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
              z3.Implies(a == 0, z3.And(s == 0, c == 1)),
              z3.Implies(z3.And(a > 0, a < PI_T), s > 0),
              z3.Implies(z3.And(a > PI_T, a < 2 * PI_T), s < 0),
              z3.Implies(z3.And(a > -PI_T / 2, a < PI_T / 2), c > 0),
              z3.Implies(z3.And(a > PI_T / 2, a < 3 * PI_T / 2), c < 0),
              z3.Implies(z3.Or(a == PI_T), z3.And(s == 0, c == -1)),
              z3.Implies(z3.Or(a == PI_T / 2), z3.And(s == 1, c == 0)),
              z3.Implies(a == 2 * PI_T, z3.And(s == 0, c == 1))]
        return ax
    if n == 'acos':
        r = z3.And(a >= -1, a <= 1)
        return [z3.Implies(r, z3.And(t >= 0, t <= PI_T, u['cos'](t) == a, u['sin'](t) >= 0)),
                z3.Implies(a == 1, t == 0), z3.Implies(a == 0, t == PI_T / 2), z3.Implies(a == -1, t == PI_T),
                z3.Implies(z3.And(r, a > 0), t < PI_T / 2), z3.Implies(z3.And(r, a < 0), t > PI_T / 2)]
    if n == 'asin':
        r = z3.And(a >= -1, a <= 1)
        return [z3.Implies(r, z3.And(t >= -PI_T / 2, t <= PI_T / 2, u['sin'](t) == a, u['cos'](t) >= 0))]
    if n == 'atan':
        return [t > -PI_T / 2, t < PI_T / 2, u['sin'](t) == a * u['cos'](t), u['cos'](t) > 0,
                z3.Implies(a > 0, t > 0), z3.Implies(a < 0, t < 0), z3.Implies(a == 0, t == 0)]
    if n == 'atan2':
        y, x = t.arg(0), t.arg(1)
        r = u['sqrt'](x * x + y * y)
        return [t > -PI_T, t <= PI_T, r * u['cos'](t) == x, r * u['sin'](t) == y, r >= 0, r * r == x * x + y * y,
                z3.Implies(y > 0, z3.And(t > 0, t < PI_T)), z3.Implies(y < 0, t < 0),
                z3.Implies(z3.And(y == 0, x > 0), t == 0), z3.Implies(z3.And(y == 0, x < 0), t == PI_T)]
    if n == 'exp':
        return [t > 0, t >= 1 + a, z3.Implies(a < 0, t < 1), z3.Implies(a == 0, t == 1), z3.Implies(a > 0, t > 1)]
    if n == 'log':
        return [z3.Implies(a > 0, z3.And(t <= a - 1, u['exp'](t) == a)), z3.Implies(a == 1, t == 0),
                z3.Implies(z3.And(a > 0, a < 1), t < 0), z3.Implies(a > 1, t > 0)]
    if n == 'pow':
        e = t.arg(1)
        return [z3.Implies(a > 0, t > 0), z3.Implies(e == 0, t == 1), z3.Implies(e == 1, t == a),
                z3.Implies(e == 2, t == a * a), z3.Implies(e == z3.Q(1, 2), z3.And(t * t == a, t >= 0)),
                z3.Implies(a == 1, t == 1), z3.Implies(z3.And(a == 0, e > 0), t == 0),
                z3.Implies(z3.And(a >= 0, a <= 1, e >= 0), z3.And(t >= 0, t <= 1)),
                z3.Implies(z3.And(a > 0, a < 1, e > 0), t < 1),
                z3.Implies(z3.And(a >= 1, e >= 0), t >= 1)]
    return []


def close_axioms(ts, rounds=3):
    done, ax = set(), []
    frontier = list(ts)
    for _ in range(rounds):
        apps = collect_apps(frontier)
        new = [t for k, t in apps.items() if k not in done]
        if not new:
            break
        frontier = []
        for t in new:
            done.add(t.get_id())
            for a in axioms_for(t):
                ax.append(a)
                frontier.append(a)
    apps = [t for t in collect_apps(list(ts) + ax).values() if t.num_args() == 1 and t.decl().name() == 'exp']
    if len(apps) <= 4:
        for p in apps:
            for q in apps:
                if not p.eq(q):
                    ax.append(z3.Implies(p.arg(0) <= q.arg(0), p <= q))
    # exponent laws between pow terms of the same base
    apps = [t for t in collect_apps(list(ts) + ax).values() if t.num_args() == 2 and t.decl().name() == 'pow']
    for i in range(len(apps)):
        for j in range(i + 1, len(apps)):
            p, q = apps[i], apps[j]
            if p.arg(0).eq(q.arg(0)) and len(apps) <= 6:
                ax.append(z3.Implies(p.arg(1) == q.arg(1), p == q))
                ax.append(z3.Implies(z3.And(p.arg(0) > 0, p.arg(1) + q.arg(1) == 1), p * q == p.arg(0)))
                ax.append(z3.Implies(z3.And(p.arg(0) > 0, p.arg(1) == q.arg(1) + 1), p == q * p.arg(0)))
                ax.append(z3.Implies(z3.And(p.arg(0) > 0, q.arg(1) == p.arg(1) + 1), q == p * p.arg(0)))
    return ax


def abstract(ts):
    """replace uninterpreted applications by fresh real constants (sound with
    the functional-consistency facts added by the caller's axioms)"""
    apps = collect_apps(ts)
    subs = []
    order = sorted([t for t in apps.values() if not t.eq(PI_T)], key=lambda t: depth(t))
    for i, t in enumerate(order):
        subs.append((t, z3.Real('app!%d' % i)))
    # innermost first does not matter for substitute on original terms: outermost match wins
    out = [z3.substitute(x, *reversed(subs)) if subs else x for x in ts]
    # congruence: equal arguments, equal values
    by = {}
    for t, v in subs:
        by.setdefault(t.decl().name(), []).append((t, v))
    for l in by.values():
        if 2 <= len(l) <= 5:
            for i in range(len(l)):
                for j in range(i):
                    (t, v), (u, w) = l[i], l[j]
                    eqs = z3.And(*[z3.substitute(t.arg(k), *reversed(subs)) == z3.substitute(u.arg(k), *reversed(subs)) for k in range(t.num_args())])
                    out.append(z3.Implies(eqs, v == w))
    return out, subs


_depth_cache = {}


def depth(t):
    k = t.get_id()
    if k not in _depth_cache:
        _depth_cache[k] = 1 + max([depth(c) for c in t.children()] or [0])
    return _depth_cache[k]


# ------------------------------------------------ linear abstraction
_lin_cache, _lin_atoms, _lin_keep = {}, {}, []


def linabs(t):
    """t with every nonlinear or uninterpreted arithmetic subterm replaced by a
    constant (the same constant for the same subterm): unsat(linabs) => unsat"""
    k = t.get_id()
    r = _lin_cache.get(k)
    if r is None:
        _lin_keep.append(t)
        r = _linabs(t)
        _lin_keep.append(r)
        _lin_cache[k] = r
    return r


def _atom_for(t):
    u = z3.simplify(t, som=True)
    neg = False
    if z3.is_mul(u) and z3.is_rational_value(u.arg(0)):
        # coefficient in front of one monomial
        c = u.arg(0)
        rest = u.arg(1) if u.num_args() == 2 else z3.simplify(z3.Product(*[u.arg(i) for i in range(1, u.num_args())]), som=True)
        return c * _atom_for(rest)
    if z3.is_add(u):
        return z3.Sum([linabs(c) for c in u.children()])
    if z3.is_rational_value(u) or (z3.is_app(u) and u.num_args() == 0):
        return u
    key = u.get_id()
    a = _lin_atoms.get(key)
    if a is None:
        _lin_keep.append(u)
        a = (z3.Int if u.sort() == z3.IntSort() else z3.Real)('lin!%d' % len(_lin_atoms))
        _lin_atoms[key] = a
    return a


def _linabs(t):
    if not z3.is_app(t):
        return t
    if z3.is_rational_value(t) or z3.is_int_value(t) or t.num_args() == 0:
        return t
    dk = t.decl().kind()
    ch = t.children()
    if t.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT):
        if dk == z3.Z3_OP_MUL:
            nn = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            if len(nn) > 1:
                return _atom_for(t)
        elif dk == z3.Z3_OP_DIV:
            if not z3.is_rational_value(ch[1]):
                return _atom_for(t)
        elif dk in (z3.Z3_OP_POWER, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM) and not (
                dk in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1])):
            return _atom_for(t)
    new = [linabs(c) for c in ch]
    if all(a.eq(b) for a, b in zip(new, ch)):
        return t
    if dk == z3.Z3_OP_AND:
        return z3.And(*new)
    if dk == z3.Z3_OP_OR:
        return z3.Or(*new)
    if dk == z3.Z3_OP_ADD:
        return z3.Sum(new)
    return t.decl()(*new)


class Lin:
    """incremental solver over the linear abstraction"""

    def __init__(self, ms=400):
        self.s = z3.Solver()
        self.s.set('timeout', ms)
        self.done = set()
        self.seen_sq = set()

    def add(self, t):
        self.s.add(linabs(t))
        for k, a in collect_apps([t]).items():
            if k not in self.done:
                self.done.add(k)
                _lin_keep.append(a)
                for x in axioms_for(a):
                    self.s.add(linabs(x))
        for sq in squares(t):
            if sq.get_id() not in self.seen_sq:
                self.seen_sq.add(sq.get_id())
                self.s.add(linabs(sq) >= 0)

    def unsat(self, *ts):
        self.s.push()
        d, q = set(self.done), set(self.seen_sq)
        for t in ts:
            self.add(t)
        r = self.s.check()
        self.s.pop()
        self.done, self.seen_sq = d, q
        return r == z3.unsat


class Signs:
    """signs of products, quotients and sums from the signs of their parts (each a linear query on the path condition)"""

    def __init__(self, pc, budget=3.):
        self.lin = Lin(300)
        for p in pc:
            self.lin.add(p)
        self.cache = {}
        self.end = time.time() + budget

    def sign(self, t):
        """set of possible signs, a subset of {-1, 0, 1}"""
        k = t.get_id()
        if k not in self.cache:
            self.cache[k] = (t, self._sign(t))
        return self.cache[k][1]

    def _sign(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
            return frozenset([(v > 0) - (v < 0)])
        full = frozenset([-1, 0, 1])
        dk = t.decl().kind()
        ch = t.children()
        if dk == z3.Z3_OP_UMINUS:
            return frozenset(-s for s in self.sign(ch[0]))
        if dk == z3.Z3_OP_TO_REAL:
            return self.sign(ch[0])
        r = full
        if dk == z3.Z3_OP_MUL:
            r = frozenset([1])
            cnt = {}
            for c in ch:
                cnt.setdefault(c.get_id(), [c, 0])[1] += 1
            for c, n in cnt.values():
                a = self.sign(c)
                if n % 2 == 0:
                    a = frozenset(x * x for x in a)
                r = frozenset(x * y for x in r for y in a)
        elif dk == z3.Z3_OP_DIV:
            a, b = self.sign(ch[0]), self.sign(ch[1])
            r = full if 0 in b else frozenset(x * y for x in a for y in b)
        elif dk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            parts = [self.sign(c) for c in ch]
            if dk == z3.Z3_OP_SUB:
                parts = [parts[0]] + [frozenset(-x for x in q) for q in parts[1:]]
            r = parts[0]
            for q in parts[1:]:
                r = frozenset(z for x in r for y in q for z in ((x + y > 0) - (x + y < 0),) + ((-1, 0, 1) if x * y < 0 else ()))
        if len(r) > 1 and time.time() < self.end:
            zero = z3.RealVal(0) if t.sort().kind() == z3.Z3_REAL_SORT else z3.IntVal(0)
            for s, c in ((-1, t < zero), (0, t == zero), (1, t > zero)):
                if s in r and len(r) > 1 and self.lin.unsat(c):
                    r = r - {s}
        return r


def sign_goal(pc, goal):
    neg = z3.is_not(goal)
    g = goal.arg(0) if neg else goal
    k = g.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and not (neg and z3.is_eq(g)):
        return False
    a, b = g.children()
    if a.sort().kind() != z3.Z3_REAL_SORT:
        return False
    zb = z3.is_rational_value(b) and b.as_fraction() == 0
    za = z3.is_rational_value(a) and a.as_fraction() == 0
    if not (za or zb):
        return False
    t = a if zb else b
    ok = {z3.Z3_OP_LE: {-1, 0}, z3.Z3_OP_LT: {-1}, z3.Z3_OP_GE: {0, 1}, z3.Z3_OP_GT: {1}, z3.Z3_OP_EQ: {0}}[k]
    if not zb:
        ok = {-x for x in ok}
    if neg:
        ok = {-1, 0, 1} - ok
    if not size_ok(t, 400):
        return False
    return Signs(pc).sign(t) <= ok


def antisym(pc):
    """pairs a, b with a <= b and b <= a on the path"""
    le = {}
    for p in pc:
        q, neg = (p.arg(0), True) if z3.is_not(p) else (p, False)
        if not z3.is_app(q) or q.num_args() != 2:
            continue
        k = q.decl().kind()
        a, b = q.children()
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b, k = b, a, z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
        if neg and k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
        elif neg or k not in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            continue
        le[(a.get_id(), b.get_id())] = (a, b)
    return [ab for (i, j), ab in le.items() if i < j and (j, i) in le]


_sq_cache = {}


def squares(t):
    """subterms x*x"""
    k = t.get_id()
    if k in _sq_cache:
        return _sq_cache[k][1]
    stack = [t]
    while stack:
        x = stack[-1]
        i = x.get_id()
        if i in _sq_cache:
            stack.pop()
            continue
        ch = x.children() if z3.is_app(x) else []
        todo = [c for c in ch if c.get_id() not in _sq_cache]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        out, seen = [], set()
        if z3.is_app(x) and z3.is_mul(x) and len(ch) == 2 and ch[0].eq(ch[1]):
            out.append(x)
            seen.add(i)
        for c in ch:
            for y in _sq_cache[c.get_id()][1]:
                if y.get_id() not in seen:
                    seen.add(y.get_id())
                    out.append(y)
        _sq_cache[i] = (x, out)
    return _sq_cache[k][1]


# --------------------------------------------------------------- context
class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'where', 'status', 'backend', 'time', 'model', 'hyps', 'info', 'path')

    def __init__(self, name, pc, goal, kind, where):
        self.name, self.pc, self.goal, self.kind, self.where = name, pc, goal, kind, where
        self.status = self.backend = self.model = self.info = None
        self.time = 0.
        self.path = None


class PathCtx:
    """state of one path"""

    def __init__(self, prefix, opts):
        self.prefix = list(prefix)
        self.pos = 0
        self.first = True
        self.taken = []
        self.alts = []
        self.pc = []
        self.pc_ids = set()
        self.obl = []
        self.div_mode = opts.get('div', 'strict')
        self.sqrt_mode = opts.get('sqrt', 'strict')
        self.fork_ite = opts.get('fork_ite', False)
        self.cancel = opts.get('cancel', False)
        self.nf = opts.get('nf', False)     # branch conditions and assumptions in normal form
        self.split_floor = opts.get('split_floor', False)   # floors of an integer part and a small rest
        self.rewriting = False
        self.rewrites = []       # equations used by the cancellation normal form
        self.ideal = False       # complete them to a Groebner basis
        self.sqrt_hints = []
        self.canc = None
        self.feas_ms = opts.get('feas_ms', 150)
        self.range_limit = opts.get('range_limit', 64)
        self.assumptions = set()
        self.inputs = {}
        self.bounded = set()
        self.fresh_n = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', max(1, self.feas_ms))
        self.lin = Lin()
        self.ax_done = set()
        self.notes = []
        self.reached = set()
        self.max_decisions = opts.get('max_decisions', 400)
        self.deadline = opts.get('deadline')

    def news(self):
        """while the decisions of the path it branched off are repeated, its obligations repeat too"""
        return self.first or self.pos >= len(self.prefix)

    def _solver_add(self, t):
        self.solver.add(t)
        for k, a in collect_apps([t]).items():
            if k not in self.ax_done:
                self.ax_done.add(k)
                for x in axioms_for(a):
                    self.solver.add(x)

    def add_pc(self, t):
        if z3.is_true(t):
            return
        k = t.get_id()
        if k in self.pc_ids:
            return
        self.pc_ids.add(k)
        self.pc.append(t)
        self.lin.add(t)
        if self.feas_ms:
            self._solver_add(t)

    def feasible(self, t):
        if self.lin.unsat(t):
            return False
        if not self.feas_ms:
            return True
        self.solver.push()
        self._saved = set(self.ax_done)
        self._solver_add(t)
        r = self.solver.check()
        self.solver.pop()
        self.ax_done = self._saved
        return r != z3.unsat

    def whole(self, t):
        """floor of t as an integer term: t is a linear integer combination of integer unknowns and a rest between known integers"""
        from . import poly
        c = poly.canceller(self)
        try:
            n, d = c.rf(t)
            n, d = c.red(n), c.red(d)
            q = n if d == poly.P.const(1) else poly.exact_div(n, d)
        except (poly.NotPoly, RecursionError):
            return None
        if q is None:
            return None
        ip, rest = [], poly.P()
        for m, k in q.d.items():
            a = c.term(poly.P({m: Fraction(1)})) if m else None
            if a is not None and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL and k.denominator == 1:
                ip.append(z3.IntVal(int(k)) * a.arg(0) if k != 1 else a.arg(0))
            else:
                rest = rest + poly.P({m: k})
        r = c.term(rest) if rest.d else z3.RealVal(0)
        for j in (0, 1, -1, 2, -2, 3, -3):
            if not self.feasible(z3.Or(r < j, r >= j + 1)):
                out = z3.IntVal(j)
                for x in ip:
                    out = out + x
                return z3.simplify(out)
        return None

    def nform(self, t):
        """t with every comparison replaced by that of a normal form with zero"""
        k = t.decl().kind()
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            return z3.simplify(t.decl()(*[self.nform(c) for c in t.children()]))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and t.arg(0).sort().kind() == z3.Z3_REAL_SORT:
            from . import poly
            a, b = t.children()
            if z3.is_const(a) and z3.is_const(b):
                return t
            d = poly.canon(a - b, self, quotient=16)
            for f in ((1, -1) if self.sqrt_hints else ()):
                r = poly.known_root(f * d, self)
                if r is not None:       # r >= 0 is known
                    o = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '='}[k]
                    if f < 0:
                        o = {'<=': '>=', '<': '>', '>=': '<=', '>': '<', '=': '='}[o]
                    return {'<=': r == 0, '<': z3.BoolVal(False), '>=': z3.BoolVal(True), '>': r > 0, '=': r == 0}[o]
            z = z3.RealVal(0)
            return z3.simplify({z3.Z3_OP_LE: d <= z, z3.Z3_OP_LT: d < z, z3.Z3_OP_GE: d >= z, z3.Z3_OP_GT: d > z, z3.Z3_OP_EQ: d == z}[k])
        return t

    def fork(self, t):
        t = z3.simplify(t)
        if self.nf:
            t = self.nform(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if t.get_id() in self.pc_ids:
            return True
        nt = z3.simplify(z3.Not(t))
        if nt.get_id() in self.pc_ids:
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('path exploration time budget')
            if len(self.taken) > self.max_decisions:
                raise Unsupported('too many decisions on one path')
            ft = self.feasible(t)
            ff = self.feasible(nt)
            if not ft and not ff:
                raise PathEnd('infeasible')
            if ft and ff:
                self.alts.append(self.taken + [False])
                d = True
            else:
                d = ft
            self.pos += 1
        self.taken.append(d)
        self.add_pc(t if d else nt)
        return d

    def choose(self, n, name='choice'):
        """non-deterministic choice among n alternatives (all explored)"""
        for i in range(n - 1):
            self.fresh_n += 1
            b = z3.Bool('%s!%d' % (name, self.fresh_n))
            if self.fork(b):
                return i
        return n - 1

    def concretize(self, s):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
            self.pos += 1
        else:
            vals, self_s = [], self.solver
            self_s.push()
            name = z3.Int('index!')
            self_s.add(name == s.t)
            while True:
                r = self_s.check()
                if r == z3.unsat:
                    break
                if r != z3.sat or len(vals) >= self.range_limit:
                    self_s.pop()
                    raise Unsupported('cannot enumerate the values of a symbolic index')
                v = self_s.model().eval(name, model_completion=True).as_long()
                vals.append(v)
                self_s.add(name != v)
            self_s.pop()
            if not vals:
                raise PathEnd('infeasible')
            vals.sort()
            for x in vals[1:]:
                self.alts.append(self.taken + [('val', x)])
            v = vals[0]
            self.pos += 1
        self.taken.append(('val', v))
        self.add_pc(z3.simplify(s.t == v))
        return v

    def definedness(self, kind, t):
        t = z3.simplify(t)
        if z3.is_true(t) or t.get_id() in self.pc_ids:
            return
        if self.news():
            self.obl.append(Obligation('defined:' + kind, list(self.pc), t, 'defined', where()))
        self.add_pc(t)

    def assume_t(self, t, why=None):
        t = z3.simplify(t)
        if self.nf and not self.rewriting:
            t = self.nform(t)
        if why:
            self.assumptions.add(why)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd('assume false')
        self.add_pc(t)
        if self.pos >= len(self.prefix):
            if self.lin.unsat() or self.feas_ms and self.solver.check() == z3.unsat:
                raise PathEnd('assume infeasible')

    def check(self, name, t, kind='ensures'):
        t = bterm(t)
        self.reached.add(name)
        if self.news():
            self.obl.append(Obligation(name, list(self.pc), t, kind, where()))
        # a failed postcondition is reported once; assume it for the rest of the path
        ts = z3.simplify(t)
        if not z3.is_false(ts):
            self.add_pc(ts)

    def fresh(self, name, sort='real'):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        return Sym(z3.Int(n) if sort == 'int' else z3.Real(n))


def where():
    import sys
    f = sys._getframe(1)
    while f:
        fn = f.f_code.co_filename
        if '/pytracer/' in fn:
            return '%s:%d %s' % (fn[fn.rindex('/pytracer/') + 1:], f.f_lineno, f.f_code.co_name)
        f = f.f_back
    return 'contract'


class Result:
    def __init__(self):
        self.paths = 0
        self.obl = []
        self.undecided = []
        self.assumptions = set()
        self.inputs = {}
        self.bounded = set()
        self.reached = set()
        self.exc = []
        self.time = 0.


def explore(fn, opts=None, max_paths=4000, budget=120., start=()):
    """run fn() on every path; returns Result with undischarged obligations"""
    opts = dict(opts or {})
    t0 = time.time()
    opts['deadline'] = t0 + budget
    res = Result()
    work = [list(start)]
    while work:
        if res.paths >= max_paths or time.time() - t0 > budget:
            res.undecided.append('path budget exhausted (%d paths, %.0fs)' % (res.paths, time.time() - t0))
            break
        pre = work.pop()
        c = PathCtx(pre, opts)
        c.first = res.paths == 0
        Ctx.cur = c
        ended = None
        try:
            fn()
        except PathEnd as e:
            ended = 'end'
        except Unsupported as e:
            res.undecided.append('unsupported: %s at %s' % (e, where_tb(e)))
        except RecursionError as e:
            res.undecided.append('unsupported: recursion at %s' % where_tb(e))
        except z3.Z3Exception as e:
            res.undecided.append('unsupported: z3 %s at %s' % (e, where_tb(e)))
        except Exception as e:
            o = Obligation('no-exception:%s' % type(e).__name__, list(c.pc), z3.BoolVal(False), 'exception', where_tb(e))
            o.info = '%s: %s' % (type(e).__name__, str(e)[:200])
            c.obl.append(o)
        finally:
            Ctx.cur = None
        res.paths += 1
        for o in c.obl:
            o.path = res.paths
        res.obl.extend(c.obl)
        res.assumptions |= c.assumptions
        res.inputs.update(c.inputs)
        res.bounded |= c.bounded
        res.reached |= c.reached
        for a in reversed(c.alts):
            work.append(a)
    res.time = time.time() - t0
    return res


def where_tb(e):
    tb = e.__traceback__
    out = '?'
    while tb:
        fn = tb.tb_frame.f_code.co_filename
        if '/pytracer/' in fn or '/contracts/' in fn:
            i = fn.rindex('/pytracer/') + 1 if '/pytracer/' in fn else fn.rindex('/contracts/') + 1
            out = '%s:%d %s' % (fn[i:], tb.tb_lineno, tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return out


# --------------------------------------------------------------- discharge
def split(goal):
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out += split(c)
        return out
    return [goal]


def vars_of(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        s = frozenset([t.decl().name()])
    elif z3.is_app(t):
        s = frozenset().union(*[vars_of(c) for c in t.children()]) if t.num_args() else frozenset()
    else:
        s = frozenset()
    cache[k] = (t, s)
    return s


def slice_pc(pc, goal, rounds=2):
    vs = set(vars_of(goal))
    keep = [False] * len(pc)
    for _ in range(rounds):
        ch = False
        for i, p in enumerate(pc):
            if not keep[i]:
                v = vars_of(p)
                if v & vs or not v:
                    keep[i] = True
                    ch = True
        for i, p in enumerate(pc):
            if keep[i]:
                vs |= vars_of(p)
        if not ch:
            break
    return [p for i, p in enumerate(pc) if keep[i]]


def expand_bool(t):
    return t


def discharge(o, timeout=8., want_model=True):
    """decide pc => goal ; sets o.status in {'proved','refuted','unknown'}"""
    t0 = time.time()
    goals = split(z3.simplify(o.goal) if o.kind == 'exception' else o.goal)
    o.status, o.backend = 'proved', 'trivial'
    for g in goals:
        st, be, model, info = _prove(o.pc, g, timeout, want_model)
        if st != 'proved':
            o.status, o.backend, o.model, o.info = st, be, model, (o.info or '') + (info or '')
            break
        if be != 'trivial':
            o.backend = be
    o.time = time.time() - t0
    return o


def quick(pc, goal):
    """syntactic and polynomial proofs only"""
    for g in split(goal):
        if z3.is_implies(g):
            if not quick(pc + [g.arg(0)], g.arg(1)):
                return None
            continue
        gs = z3.simplify(g)
        if z3.is_true(gs) or any(p.eq(gs) for p in pc):
            continue
        if z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_REAL_SORT:
            if size_ok(g) and poly.proves_eq(g.arg(0), g.arg(1), max_terms=4000):
                continue
        return None
    return 'syntactic/poly'


def size_ok(t, lim=3000):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return False
        if len(seen) > lim:
            return False
        st.extend(x.children())
    return True


def discharge_path(obls, timeout=4.):
    """all obligations of one path in one query; True when all hold"""
    rest = []
    lin, n = Lin(1000), 0
    for o in obls:
        t0 = time.time()
        if quick(o.pc, o.goal):
            o.status, o.backend, o.time = 'proved', 'poly', time.time() - t0
            continue
        for p in o.pc[n:]:
            lin.add(p)
        n = len(o.pc)
        if lin.unsat(z3.Not(o.goal)):
            o.status, o.backend, o.time = 'proved', 'z3-lin', time.time() - t0
            continue
        rest.append(o)
    if len(rest) < 2:
        return rest
    base = rest[0].pc
    n = len(base)
    alts = []
    for o in rest:
        alts.append(z3.And(*(o.pc[n:] + [z3.Not(o.goal)])))
    q = z3.Or(*alts)
    t0 = time.time()
    ax = close_axioms(base + [q])
    fs, _ = abstract(base + ax + [q])
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in fs:
        s.add(f)
    r = s.check()
    dt = time.time() - t0
    if r == z3.unsat:
        for o in rest:
            o.status, o.backend, o.time = 'proved', 'z3-path', dt / len(rest)
        return []
    return rest


def _prove(pc, goal, timeout, want_model):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'trivial', None, None
    for p in pc:
        if p.eq(g):
            return 'proved', 'trivial', None, None
    # implications: move antecedent to the left
    if z3.is_implies(goal):
        return _prove(pc + [goal.arg(0)], goal.arg(1), timeout, want_model)
    if z3.is_and(goal):
        for c in goal.children():
            r = _prove(pc, c, timeout, want_model)
            if r[0] != 'proved':
                return r
        return 'proved', 'split', None, None
    is_eq = z3.is_eq(goal) and goal.arg(0).sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT)
    if is_eq:
        if poly.proves_eq(goal.arg(0), goal.arg(1)):
            return 'proved', 'poly', None, None
        hy = [(p.arg(0), p.arg(1)) for p in pc if z3.is_eq(p) and p.arg(0).sort().kind() == z3.Z3_REAL_SORT]
        if hy and poly.proves_eq(goal.arg(0), goal.arg(1), hy):
            return 'proved', 'poly+hyps', None, None
        for a, b in antisym(pc):
            for x, y in ((a, b), (b, a)):
                g2 = z3.substitute(goal, (x, y))
                if not g2.eq(goal) and poly.proves_eq(g2.arg(0), g2.arg(1), hy):
                    return 'proved', 'poly+antisymmetry', None, None
    elif sign_goal(pc, goal):
        return 'proved', 'signs', None, None
    ng = z3.Not(goal)
    sl = list(pc) if z3.is_false(g) else slice_pc(pc, goal)
    ax = close_axioms(sl + [ng])
    fs, subs = abstract(sl + ax + [ng])
    last = None
    # 1. default solver, short
    for tac, ms in (('smt', min(2000, timeout * 1000)), ('nra', min(6000, timeout * 1000)), ('smt2', timeout * 1000)):
        s = mk_solver(tac, fs)
        if s is None:
            continue
        s.set('timeout', int(ms))
        for f in fs:
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            return 'proved', 'z3-' + tac, None, None
        if r == z3.sat:
            m = s.model()
            if len(sl) < len(pc):
                # sliced: confirm on the full set
                ax2 = close_axioms(pc + [ng])
                fs2, _ = abstract(pc + ax2 + [ng])
                s2 = mk_solver(tac, fs2)
                s2.set('timeout', int(ms))
                for f in fs2:
                    s2.add(f)
                r2 = s2.check()
                if r2 == z3.unsat:
                    return 'proved', 'z3-' + tac, None, None
                if r2 != z3.sat:
                    # a model of the slice only: no verdict
                    break
                m, s = s2.model(), s2
            return 'refuted', 'z3-' + tac, model_of(m, s) if want_model else None, None
    r = external(fs, timeout)
    if r == 'unsat':
        return 'proved', 'cvc5', None, None
    return 'unknown', 'z3+cvc5', None, 'timeout/unknown'


def mk_solver(tac, fs):
    if tac == 'nra':
        for f in fs:
            if has_int(f):
                return None
        return z3.Tactic('qfnra-nlsat').solver() if False else z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify', 'tseitin-cnf', 'qfnra-nlsat').solver()
    s = z3.Solver()
    if tac == 'smt2':
        s.set('smt.arith.solver', 2) if False else None
        s.set('random_seed', 7)
    return s


def has_int(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    r = t.sort() == z3.IntSort() or any(has_int(c) for c in t.children())
    if not z3.is_app(t):
        r = True
    if z3.is_select(t) or z3.is_store(t):
        r = True
    cache[k] = (t, r)
    return r


def external(fs, timeout):
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt if 'set-logic' not in txt else txt
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
        fh.write(txt)
    try:
        for cmd in (['cvc5', '--tlimit=%d' % int(timeout * 1000), fh.name],):
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 5)
            except (subprocess.TimeoutExpired, OSError):
                continue
            out = p.stdout.strip().split('\n')[0] if p.stdout else ''
            if out == 'unsat':
                return 'unsat'
    finally:
        os.unlink(fh.name)
    return 'unknown'


def val_of(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def model_of(m, s, budget=1.5):
    """model as dict name -> Fraction, nudged to short dyadic values when possible"""
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            v = val_of(m[d])
            if v is not None:
                out[d.name()] = v
    t0 = time.time()
    try:
        s.set('timeout', 300)
        for d in m.decls():
            n = d.name()
            if d.arity() or n not in out or n.startswith('app!') or '!' in n or d.range() != z3.RealSort():
                continue
            if time.time() - t0 > budget:
                break
            v = out[n]
            if v.denominator in (1, 2, 4, 8, 16) and abs(v) < 4096:
                s.add(d() == sym.zfrac(v))
                continue
            for den in (1, 4, 16, 256):
                c = Fraction(round(v * den), den)
                s.push()
                s.add(d() == sym.zfrac(c))
                if s.check() == z3.sat:
                    m2 = s.model()
                    s.pop()
                    s.add(d() == sym.zfrac(c))
                    for e in m2.decls():
                        if e.arity() == 0 and val_of(m2[e]) is not None:
                            out[e.name()] = val_of(m2[e])
                    break
                s.pop()
    except z3.Z3Exception:
        pass
    return out
