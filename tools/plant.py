#!/usr/bin/env python3
"""Development helper (not used by any check): verify and store planted bugs.

usage: plant.py SPECFILE [id...]   SPECFILE defines BUGS = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks)]
A bug is kept in /verif/seeded/<id> when the patch removes only original lines, compiles, passes the tests and its
demonstration fails with it and passes without it.  All work happens in a scratch copy that is removed at the end.
"""
import os, sys, subprocess, json, shutil, tempfile, runpy

BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
ENV = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1', OPENBLAS_NUM_THREADS='1')
SH = '''#!/bin/sh
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, PYTHONPATH=cwd), capture_output=True, text=True, **kw)

def one(b, wt):
    f = b['file']
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=wt)
    files = b.get('files') or {f: b['edits']}
    for fn, edits in files.items():
        s = open(os.path.join(wt, fn)).read()
        for old, new in edits:
            if s.count(old) != 1:
                return 'edit matches %d times: %r' % (s.count(old), old[:60])
            s = s.replace(old, new)
        open(os.path.join(wt, fn), 'w').write(s)
    patch = subprocess.check_output(['git', 'diff'], cwd=wt, text=True)
    # removed lines must be original
    for fn in files:
        blame = subprocess.check_output(['git', 'blame', '-s', '-l', 'HEAD', '--', fn], cwd=wt, text=True).split('\n')
        ln = None; cur = False
        for l in patch.split('\n'):
            if l.startswith('+++ '):
                cur = l[6:] == fn
            elif cur and l.startswith('@@'):
                ln = int(l.split()[1][1:].split(',')[0])
            elif cur and ln is not None and l[:1] in ('-', ' ') and not l.startswith('---'):
                if l[0] == '-' and not blame[ln - 1].lstrip('^').startswith(BASE[:30]):
                    return 'touches a line that is not original: ' + l
                ln += 1
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = run(['sh', d + '/demo.sh'], wt)
    if r.returncode == 0:
        return 'demo passes with the patch'
    msg = (r.stderr or r.stdout).strip().split('\n')[-1]
    subprocess.check_call(['git', 'stash', '-q'], cwd=wt)
    r0 = run(['sh', d + '/demo.sh'], wt)
    subprocess.check_call(['git', 'stash', 'pop', '-q'], cwd=wt)
    if r0.returncode:
        return 'demo fails without the patch: ' + (r0.stderr or r0.stdout).strip()[-600:]
    r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300',
             '--continue-on-collection-errors', '--ignore=tests/pytracer/test_render.py'], wt)
    if r.returncode:
        return 'tests fail: ' + r.stdout.strip()[-800:]
    return 'OK   (demo says: %s)' % msg[:150]

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    bugs = [b for b in bugs if not ids or b['id'] in ids]
    from concurrent.futures import ThreadPoolExecutor
    def job(k):
        wt = tempfile.mkdtemp(prefix='wt%d_' % k, dir='/tmp')
        os.rmdir(wt)
        subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
        try:
            for b in bugs[k::6]:
                r = one(b, wt)
                if not r.startswith('OK'):
                    shutil.rmtree('/verif/seeded/' + b['id'], ignore_errors=True)
                print(b['id'], r, flush=True)
        finally:
            shutil.rmtree(wt)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(job, range(6)))

main()
