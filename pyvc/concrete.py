"""Runs contracts on the real code (project interpreter, real numpy).
usage: python concrete.py job.json out.json
job: {prop, modules:[...], seed, items:[{contract, n, secs, models:[...]}]}"""
import importlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
warnings.simplefilter('ignore')
sys.setrecursionlimit(3000)


def run_one(c, S):
    """-> (status, detail) ; status in ok|discard|fail|spec-error"""
    from pyvc.api import Discard
    try:
        c.fn(S)
    except Discard:
        if S.fails:
            return 'fail', list(S.fails)
        return 'discard', None
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if '/pytracer/' in f.filename]
        if not inrepo and isinstance(e, (TypeError, ValueError, IndexError, KeyError)) and '/contracts/' in tb[-1].filename and not (
                'argument' in str(e) or 'keyword' in str(e)):
            # the value returned by the code cannot be read as the contract's result type
            S.fails.append('result has the form the contract states')
            return 'fail', list(S.fails) + ['%s: %s at %s:%d' % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno)]
        if not inrepo:
            return 'spec-error', '%s: %s at %s:%d' % (type(e).__name__, e, tb[-1].filename, tb[-1].lineno)
        # raised by the code under contract (possibly inside numpy called from it)
        last = inrepo[-1]
        where = '%s:%d %s' % (last.filename[last.filename.rindex('/pytracer/') + 1:], last.lineno, last.name)
        S.fails.append('no-exception:%s' % type(e).__name__)
        return 'fail', list(S.fails) + ['%s: %s at %s' % (type(e).__name__, str(e)[:200], where)]
    if S.fails:
        return 'fail', list(S.fails)
    return 'ok', None


def dump(out, outf):
    with open(outf + '.tmp', 'w') as f:
        json.dump(out, f, default=str)
    os.replace(outf + '.tmp', outf)


def main(jobf, outf):
    from pyvc import api
    from pyvc.concS import ConcS
    import numpy as np
    np.seterr(all='ignore')
    job = json.load(open(jobf))
    for m in job['modules']:
        importlib.import_module(m)
    by = {c.name: c for c in api.REG.get(job['prop'], [])}
    out = []
    real_stdout = sys.stdout
    for it in job['items']:
        c = by[it['contract']]
        res = {'contract': c.name, 'runs': 0, 'ok': 0, 'discard': 0, 'spec_errors': 0, 'evals': 0, 'failures': [],
               'sample': None, 'spec_error': None, 'model_results': []}
        t0 = time.time()
        for i, m in enumerate(it.get('models', [])):
            # the exact counter-model, then neighbours around it
            hit = None
            for k in range(it.get('tries', 1)):
                rng = random.Random('%s/%s/m%d/%d' % (job['seed'], c.name, i, k))
                np.random.seed(rng.randrange(2 ** 31))
                random.seed(rng.randrange(2 ** 31))
                S = ConcS(rng, m, c.opts)
                sys.stdout = io.StringIO()
                try:
                    st, d = run_one(c, S)
                finally:
                    sys.stdout = real_stdout
                if st == 'fail':
                    hit = {'inputs': S.inputs, 'fails': d}
                    break
            res['model_results'].append(hit)
        n, secs = it.get('n', 0), it.get('secs', 5.)
        for k in range(n):
            if time.time() - t0 > secs:
                break
            s = '%s/%s/%d' % (job['seed'], c.name, k)
            rng = random.Random(s)
            np.random.seed(rng.randrange(2 ** 31))
            random.seed(rng.randrange(2 ** 31))
            S = ConcS(rng, None, c.opts)
            sys.stdout = io.StringIO()
            try:
                st, d = run_one(c, S)
            finally:
                sys.stdout = real_stdout
            res['runs'] += 1
            res['evals'] += S.evals
            if st == 'ok':
                res['ok'] += 1
                if res['sample'] is None:
                    res['sample'] = S.inputs
            elif st == 'discard':
                res['discard'] += 1
            elif st == 'spec-error':
                res['spec_errors'] += 1
                res['spec_error'] = res['spec_error'] or d
            else:
                if len(res['failures']) < 5:
                    res['failures'].append({'inputs': S.inputs, 'fails': d, 'case': k})
                if len(res['failures']) >= 3:
                    break
        res['secs'] = time.time() - t0
        out.append(res)
        dump(out, outf)
    dump(out, outf)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
