"""developer helper: prints the undecided branches (both sides feasible) taken by a contract.  forks.py C01 name [paths]"""
import sys, os, traceback, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import importlib
from pyvc import check, vc
prop, name = sys.argv[1:3]
mods = check.modules_for(prop)
for m in mods:
    importlib.import_module(m)
of = vc.PathCtx.fork


def fork(self, t):
    n = len(self.alts)
    t0 = time.time()
    k = self.pos
    d = of(self, t)
    fr = [f for f in traceback.extract_stack() if 'pyvc' not in f.filename and '/tools/' not in f.filename and 'frozen' not in f.filename][-1:]
    if time.time() - t0 > .2 or len(self.alts) > n:
        print('%s%5.2fs %s %s:%s %s' % ('*' if len(self.alts) > n else ' ', time.time() - t0, d, fr[0].filename[-30:], fr[0].lineno, str(self.nform(t)).replace('\n', ' ')[:150]))
    return d


vc.PathCtx.fork = fork
op = vc.PathCtx.__init__


def init(self, *a, **k):
    print('--- path')
    op(self, *a, **k)


vc.PathCtx.__init__ = init
r = check.run_contract(prop, mods, name, 'quick')
