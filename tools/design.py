"""DESIGN.md = tools/design_head.md + tables generated from the contracts and the planted bugs + tools/design_tail.md"""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import api, check
out = [open(os.path.join(ROOT, 'tools/design_head.md')).read()]
how = {}
cur = None
for l in open(os.path.join(ROOT, 'tools/design_how.md')):
    if l.startswith('## '):
        cur = l[3:].strip()
        how[cur] = ''
    elif cur:
        how[cur] += l
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    d = json.loads(l)
    p = d['id']
    for m in check.modules_for(p):
        importlib.import_module(m)
    out.append('### %s %s\n\n%s\n' % (p, d['title'], how.get(p, '').strip()))
    fs = sorted({t for c in api.REG[p] for t in c.target})
    out.append('Functions under contract: %s.\n' % ', '.join('`%s`' % t.replace('pytracer.', '') for t in fs))
    out.append('Contracts: %s.\n' % '; '.join('`%s`%s%s' % (c.name, (' (**bounded**: %s)' % c.opts['bounded']) if c.opts.get('bounded') else '',
                                                       (' - ' + ' '.join(c.fn.__doc__.split())) if c.fn.__doc__ else '') for c in api.REG[p]))
out.append('## 6. Planted bugs\n\nEach was written from the text of a property and the code; `demo.sh` fails with it and passes without it, the stable tests pass with it. '
           'Kept whether or not it is caught (`tools/plant.py` verifies and stores, `tools/tryseed.sh` runs the check against it).\n\n| bug | breaks | needs | found by |\n|---|---|---|---|\n')
tab = ''
res = {}
f = os.path.join(ROOT, 'tools/planted.txt')
if os.path.exists(f):
    for l in open(f):
        a, _, b = l.strip().partition(' ')
        res[a] = b
for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
    tab += '| %s | %s | %s | %s |\n' % (s, m['what_it_breaks'], m['needs'], res.get(s, ''))
out[-1] += tab
out.append(open(os.path.join(ROOT, 'tools/design_tail.md')).read())
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
