"""developer helper: profile one contract.  prof.py C01 name"""
import cProfile, pstats, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import importlib
from pyvc import check
prop, name = sys.argv[1:3]
mods = check.modules_for(prop)
for m in mods:
    importlib.import_module(m)
p = cProfile.Profile()
p.enable()
r = check.run_contract(prop, mods, name, 'quick')
p.disable()
print({k: r[k] for k in ('paths', 'undecided', 'explore_s', 'time')})
for o in sorted(r['obl'], key=lambda o: -o['time'])[:8]:
    print(o['name'], o['status'], o['backend'], o['time'], o['path'])
pstats.Stats(p).sort_stats('cumtime').print_stats(int(sys.argv[3]) if len(sys.argv) > 3 else 25)
