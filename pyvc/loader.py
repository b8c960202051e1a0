"""Loads the real pytracer sources of /repo for symbolic execution.

Each module is parsed from the working tree on every run.  The transformation
is mechanical and is all that separates the verified text from the running one:
  * float literals become exact rationals,  a/b and a**b go through helpers that
    keep int/int exact,
  * loops for which a contract supplies an invariant are cut at the invariant,
  * numpy, float, int, bool, min, max, abs, range, sum, round, print, isinstance
    targets are the exact-real models of npx.py,
  * imports of scipy, PIL, quaternion are stubs (opaque).
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

from . import api, npx

REPO = os.environ.get('PYVC_REPO', '/repo')
CUTS = api.CUTS       # (module, qualname) -> {loop ordinal: invariant object}; filled by contracts


class _Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = type(n, (), {})
        setattr(self, n, v)
        return v


class _Quat(types.ModuleType):
    pass


def _mk_stub(name):
    m = _Stub(name)
    m.__path__ = []
    return m


_STUBS = {}


def _vimport(name, globals=None, locals=None, fromlist=(), level=0):
    top = name.split('.')[0] if level == 0 else ''
    if top == 'numpy':
        return npx.NPX
    if top in ('scipy', 'PIL', 'matplotlib', 'quaternion', 'threading'):
        if top == 'threading':
            return builtins.__import__(name, globals, locals, fromlist, level)
        m = _STUBS.get(top)
        if m is None:
            m = _STUBS[top] = _mk_stub(top)
            setattr(m, 'spatial', _mk_stub('spatial'))
            m.Image = _mk_stub('Image')
        return m
    if top == 'collections':
        m = types.ModuleType('collections')
        import collections
        import collections.abc
        m.__dict__.update({k: getattr(collections, k) for k in dir(collections) if not k.startswith('__')})
        m.__dict__.update({k: getattr(collections.abc, k) for k in dir(collections.abc) if not k.startswith('__')})
        return m
    return builtins.__import__(name, globals, locals, fromlist, level)


def v_isinstance(o, c):
    return builtins.isinstance(o, c)


class VEnum(object):
    """enumerate over a sequence of unknown length"""

    def __init__(self, x, start):
        self.x, self.first = x, start

    def __vlen__(self):
        return npx.v_len(self.x)

    def __getitem__(self, k):
        return (self.first + k, self.x[k])

    def __iter__(self):
        raise npx.Unsupported('iteration over a list of unknown length')


def v_enumerate(x, start=0):
    return VEnum(x, start) if hasattr(x, '__vlen__') else builtins.enumerate(x, start)


def v_comp(f, it):
    if isinstance(it, npx.VRange):
        n = it.stop - it.start
        if it.step == 1 and isinstance(n, npx.Sym) and not n.isconst():
            return npx.SList(npx.Sym(npx.z3.If(npx.sym.iterm(n) > 0, npx.sym.iterm(n), npx.z3.IntVal(0))), lambda k: f(it[k]))
    if hasattr(it, '__vlen__'):
        n = npx.v_len(it)
        if isinstance(n, npx.Sym) and not n.isconst():
            return npx.SList(n, lambda k: f(it[k]))
        return [f(it[k]) for k in builtins.range(builtins.int(n.t) if isinstance(n, npx.Sym) else n)]
    return [f(x) for x in it]


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(float=npx.F64, int=npx.VInt, bool=npx.VBool, min=npx.v_min, max=npx.v_max, abs=npx.v_abs, range=npx.v_range,
             sum=npx.v_sum, len=npx.v_len, round=npx.v_round, pow=npx.v_pow, print=npx.v_print, divmod=npx.v_divmod,
             enumerate=v_enumerate, __import__=_vimport, __vc_lit__=npx.vc_lit, __vc_div__=npx.vc_div, __vc_idiv__=npx.vc_idiv,
             __vc_pow__=npx.vc_pow, __vc_loop__=_vc_loop, __vc_comp__=v_comp, __vc_havoc__=_vc_havoc)
    return d


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


class Tx(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.counts = []
        self.locals = []        # names assigned in the enclosing function

    # -- literals and division
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(_name('__vc_lit__'), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(_name('__vc_div__'), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(_name('__vc_pow__'), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign([n.target], ast.Call(_name('__vc_idiv__'),
                                     [_name(n.target.id), n.value], [])), n)
        return n

    # -- a list comprehension over a sequence of unknown length is the list of its elements by index
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) != 1 or g.ifs or g.is_async or any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return n
        one = ast.Subscript(ast.ListComp(n.elt, [ast.comprehension(g.target, ast.Tuple([_name('__vc_x')], ast.Load()), [], 0)]),
                            ast.Constant(0), ast.Load())
        fn = ast.Lambda(ast.arguments([], [ast.arg('__vc_x')], None, [], [], None, []), one)
        return ast.fix_missing_locations(ast.copy_location(ast.Call(_name('__vc_comp__'), [fn, g.iter], []), n))

    # -- scopes
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.counts.append([0])
        self.generic_visit(n)
        self.counts.pop()
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        self.stack.append(n.name)
        self.counts.append([0])
        self.locals.append({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        self.generic_visit(n)
        self.locals.pop()
        self.counts.pop()
        self.stack.pop()
        return n

    def visit_arg(self, n):
        n.annotation = None
        return n

    # -- loops
    def _cut(self):
        if not self.counts:
            return None
        k = self.counts[-1][0]
        self.counts[-1][0] += 1
        q = '.'.join(self.stack)
        return (self.module, q, k) if k in CUTS.get((self.module, q), {}) else None

    def _havoc(self, n, key):
        names = sorted({x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and (
            isinstance(x.ctx, ast.Store) or x.id in (self.locals[-1] if self.locals else ()))})
        CUTS[(key[0], key[1])][key[2]].stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        CUTS[(key[0], key[1])][key[2]].reads = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        call = ast.Call(_name('__vc_havoc__'), [ast.Constant(key), ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
                                                ast.Call(_name('locals'), [], [])], [])
        return names, call

    def visit_For(self, n):
        key = self._cut()
        names = call = None
        if key:
            names, call = self._havoc(n, key)
        self.generic_visit(n)
        if not key:
            return n
        # evaluate the iterable, check the invariant on entry, havoc, run one arbitrary iteration
        it = '__vc_it_%d' % key[2]
        pre = ast.Assign([ast.Name(it, ast.Store())], n.iter)
        call.args.append(_name(it))
        out = [pre]
        tgt = [ast.Name(x, ast.Store()) for x in names]
        hv = '__vc_h_%d' % key[2]
        out.append(ast.Assign([ast.Name(hv, ast.Store())], call))
        out += self._assign_havoc(names, hv)
        n.iter = ast.Call(_name('__vc_loop__'), [ast.Constant(key), _name(it)], [])
        out.append(n)
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in out]

    def _assign_havoc(self, names, hv):
        out = []
        for x in names:
            # if name in havoc result: assign
            out.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [_name(hv)]),
                              [ast.Assign([ast.Name(x, ast.Store())],
                                          ast.Subscript(_name(hv), ast.Constant(x), ast.Load()))], []))
        return out

    def visit_While(self, n):
        key = self._cut()
        names = call = None
        if key:
            names, call = self._havoc(n, key)
        self.generic_visit(n)
        if not key:
            return n
        call.args.append(ast.Constant(None))
        hv = '__vc_h_%d' % key[2]
        out = [ast.Assign([ast.Name(hv, ast.Store())], call)] + self._assign_havoc(names, hv)
        body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body
        f = ast.For(ast.Name('__vc_dummy', ast.Store()), ast.Call(_name('__vc_loop__'), [ast.Constant(key), ast.Constant(None)], []),
                    body, [])
        if n.orelse:
            raise SyntaxError('while-else')
        out.append(f)
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in out]


def _vc_havoc(key, names, loc, it):
    inv = CUTS[(key[0], key[1])][key[2]]
    out = inv.enter(names, dict(loc), it)
    if inv.S is not None and not getattr(inv, 'plain', False):
        # a variable the loop assigns and the invariant does not speak of has no known value from here on
        for x in inv.stored:
            if x in loc and x not in out:
                out[x] = Unknown(x)
    return out


class Unknown(object):
    """the value of a variable that a cut loop changes and its invariant leaves open: any use is undecided"""

    def __init__(self, name):
        object.__setattr__(self, '_Unknown__name', name)

    def _use(self, *a, **k):
        raise npx.Unsupported('the value of %s after an arbitrary number of iterations' % object.__getattribute__(self, '_Unknown__name'))


for _n in """getattribute setattr bool int float index len iter next contains getitem setitem call eq ne lt le gt ge hash str repr neg pos abs
 add radd iadd sub rsub isub mul rmul imul truediv rtruediv itruediv floordiv rfloordiv mod rmod pow rpow and rand iand or ror ior xor rxor
 lshift rshift invert divmod enter exit""".split():
    setattr(Unknown, '__%s__' % _n, Unknown._use)


def _vc_loop(key, it):
    inv = CUTS[(key[0], key[1])][key[2]]
    return inv.iterate(it, sys._getframe(1))


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'pytracer':
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            fn, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            fn, pkg = base + '.py', False
        else:
            return None
        s = importlib.util.spec_from_loader(name, self, origin=fn, is_package=pkg)
        if pkg:
            s.submodule_search_locations = [base]
        s.loader_state = fn
        return s

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        fn = mod.__spec__.loader_state
        mod.__file__ = fn
        src = open(fn, encoding='utf-8').read()
        tree = ast.parse(src, fn)
        tree = ast.fix_missing_locations(Tx(mod.__name__).visit(tree))
        code = compile(tree, fn, 'exec', dont_inherit=True)
        mod.__dict__['__builtins__'] = make_builtins()
        exec(code, mod.__dict__)


_inst = None


def install():
    global _inst
    if _inst is None:
        sys.dont_write_bytecode = True
        _inst = Finder()
        sys.meta_path.insert(0, _inst)


def load(name):
    install()
    return importlib.import_module(name)
