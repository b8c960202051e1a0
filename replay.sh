#!/bin/bash
# replay.sh FILE : rerun a recorded violation on the current /repo
cd "$(dirname "$0")" && exec python3-vt - "$1" <<'PY'
import json, os, subprocess, sys, tempfile
d = json.load(open(sys.argv[1]))
inp = d['data'].get('inputs') or {}
with tempfile.TemporaryDirectory() as t:
    jf, of = t + '/j.json', t + '/o.json'
    json.dump(dict(prop=d['property'], modules=d['modules'], seed=1, items=[dict(contract=d['contract'], n=0, models=[inp], tries=40)]), open(jf, 'w'))
    sys.path.insert(0, os.getcwd())
    from pyvc import check
    subprocess.run([check.PYPY, '-W', 'ignore', 'pyvc/concrete.py', jf, of], env=check.conc_env(), check=True)
    r = json.load(open(of))[0]['model_results'][0]
    print('REPRODUCED' if r else 'not reproduced', json.dumps(r, indent=1))
    sys.exit(1 if r else 0)
PY
