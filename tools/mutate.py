"""developer helper: random mutants of the functions a property has under contract, in a scratch clone; lists the ones its check misses.
mutate.py C07 count [seed]"""
import ast, os, random, re, subprocess, sys, importlib, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import api, check
prop, count = sys.argv[1], int(sys.argv[2])
rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
W = '/tmp/mut_%s' % prop
subprocess.run(['rm', '-rf', W])
subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
for m in check.modules_for(prop):
    importlib.import_module(m)
targets = set()
for c in api.REG[prop]:
    targets |= set(c.target)
funcs = []
for t in sorted(targets):
    mod, qn = t.split(':')
    f = os.path.join(W, mod.replace('.', '/'))
    f = f + '.py' if os.path.exists(f + '.py') else os.path.join(f, '__init__.py')
    if not os.path.exists(f):
        continue
    src = open(f).read()
    tree = ast.parse(src)
    node = tree
    last = node
    for p in qn.split('.'):
        node = next((n for n in node.body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == p), None)
        if node is None:
            break
    if node is not None:
        funcs.append((t, f, node))
pool = []
for t, f, node in funcs:
    for n in ast.walk(node):
        if isinstance(n, ast.FunctionDef):
            n.returns = None
            for a in n.args.args:
                a.annotation = None
    for n in ast.walk(node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            pool.append((t, f, n, 'op'))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            pool.append((t, f, n, 'cmp'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            pool.append((t, f, n, 'const'))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            pool.append((t, f, n, 'unary'))
        elif isinstance(n, ast.Attribute) and n.attr in 'xyz' and isinstance(n.ctx, ast.Load):
            pool.append((t, f, n, 'attr'))
        elif isinstance(n, ast.BoolOp):
            pool.append((t, f, n, 'bool'))
        elif isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            pool.append((t, f, n, 'del'))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            pool.append((t, f, n, 'args'))


def text(src, n):
    return ast.get_source_segment(src, n)


def off(lines, ln, col):
    return sum(len(l) for l in lines[:ln - 1]) + len(lines[ln - 1].encode()[:col].decode())


def mutate(src, n, kind):
    lines = src.splitlines(True)
    a, b = off(lines, n.lineno, n.col_offset), off(lines, n.end_lineno, n.end_col_offset)
    seg = src[a:b]
    if kind == 'op':
        l, r = text(src, n.left), text(src, n.right)
        o = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}[type(n.op)]
        la, rb = src[a:off(lines, n.left.end_lineno, n.left.end_col_offset)], src[off(lines, n.right.lineno, n.right.col_offset):b]
        mid = src[off(lines, n.left.end_lineno, n.left.end_col_offset):off(lines, n.right.lineno, n.right.col_offset)]
        s = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.op)]
        new = la + mid.replace(s, o, 1) + rb
    elif kind == 'cmp':
        l, r = n.left, n.comparators[0]
        i, j = off(lines, l.end_lineno, l.end_col_offset), off(lines, r.lineno, r.col_offset)
        mid = src[i:j]
        new = src[a:i] + (mid.replace('<', '>') if '<' in mid else mid.replace('>', '<')) + src[j:b]
    elif kind == 'const':
        v = n.value
        new = repr(type(v)(rng.choice([v + 1, v * 2, v - 1]) if v else v + 1))
    elif kind == 'unary':
        new = '(' + text(src, n.operand) + ')'
    elif kind == 'attr':
        new = text(src, n.value) + '.' + rng.choice([c for c in 'xyz' if c != n.attr])
    elif kind == 'bool':
        new = seg.replace(' and ', ' %%% ').replace(' or ', ' and ').replace(' %%% ', ' or ')
    elif kind == 'del':
        new = 'pass'
    elif kind == 'args':
        i = rng.randrange(len(n.args) - 1)
        x, y = n.args[i], n.args[i + 1]
        xa, xb = off(lines, x.lineno, x.col_offset), off(lines, x.end_lineno, x.end_col_offset)
        ya, yb = off(lines, y.lineno, y.col_offset), off(lines, y.end_lineno, y.end_col_offset)
        return src[:xa] + src[ya:yb] + src[xb:ya] + src[xa:xb] + src[yb:]
    if new == seg:
        return None
    return src[:a] + new + src[b:]


env = dict(os.environ, PYVC_REPO=W, VERIF_TIER='quick', VERIF_SEED='1')
rng.shuffle(pool)
# spread over functions
by = {}
for p in pool:
    by.setdefault(p[0], []).append(p)
order = []
while any(by.values()):
    for k in sorted(by):
        if by[k]:
            order.append(by[k].pop())
head = order[:len(by)]
rng.shuffle(head)
order = head + order[len(by):]
done = miss = 0
for t, f, n, kind in order:
    if done >= count:
        break
    src = open(f).read()
    try:
        new = mutate(src, n, kind)
        if new is None or new == src:
            continue
        compile(new, f, 'exec')
    except Exception as e:
        continue
    open(f, 'w').write(new)
    t0 = time.time()
    # only the contracts of the function (a target may be its class)
    names = [c.name for c in api.REG[prop] if any(x == t or t.startswith(x + '.') or x.startswith(t + '.') for x in c.target)]
    env['PYVC_ONLY'] = '^(%s)$' % '|'.join(names)
    p = subprocess.run(['python3-vt', '-m', 'pyvc.check', prop, 'quick'], cwd=os.environ.get('PYVC_ROOT', ROOT), env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    hard = [l for l in v if 'no-failing-input' not in l]
    done += 1
    o, q = src.splitlines(), new.splitlines()
    d = [(i + 1, x.strip(), y.strip()) for i, (x, y) in enumerate(zip(o, q)) if x != y]
    st = 'killed' if hard else ('weak  ' if v else 'MISSED')
    if not hard:
        miss += 1
    print('%s %s rc=%d %.0fs %s %s:%s\n      - %s\n      + %s' % (st, prop, p.returncode, time.time() - t0, t, f[len(W) + 1:], d[0][0] if d else '?', d[0][1][:150] if d else '', d[0][2][:150] if d else ''), flush=True)
    open(f, 'w').write(src)
print('%s: %d mutants, %d not killed' % (prop, done, miss))
subprocess.run(['rm', '-rf', W])
