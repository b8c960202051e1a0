#!/bin/bash
# developer helper: run.sh C07 [regex]  -- short report
cd /verif; PYVC_VERBOSE=1 PYVC_ONLY="$2" python3-vt -m pyvc.check $1 ${3:-quick} 2>/dev/null | python3 -c "
import sys,json
for l in sys.stdin:
    if l.startswith('{'):
        d=json.loads(l); print('%-28s %-9s ob %s/%s paths %s t %s  conc %s/%s %s' % (d['contract'],d.get('status'),d.get('discharged'),d.get('obligations'),d.get('paths'),d.get('time'),d.get('concrete_runs'),d.get('concrete_evals'),(str(d.get('error') or '')+str(d.get('spec_error') or ''))[-300:]))
    elif l.startswith('      x'): pass
    elif l.startswith('  undecided'): print(l[:260].rstrip())
    else: print(l[:420].rstrip())
" | awk '/^    /{n++; if(n>24) next} {print}'
