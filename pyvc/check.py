"""check one property:  python3-vt -m pyvc.check C02"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVC_REPO', '/repo')
PYPY = os.environ.get('PYVC_PY', '/opt/venv/bin/python')

TIERS = {'quick': dict(contract_s=90, solver_s=6., conc_n=400, conc_s=6., tries=40),
         'thorough': dict(contract_s=600, solver_s=40., conc_n=6000, conc_s=60., tries=400)}


def modules_for(prop):
    out = []
    for f in sorted(os.listdir(os.path.join(ROOT, 'contracts'))):
        if f.lower().startswith(prop.lower()) and f.endswith('.py'):
            out.append('contracts.' + f[:-3])
    return out


def child(conn, prop, mods, name, tier, start):
    """explore + discharge one contract in its own process"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        conn.send(run_contract(prop, mods, name, tier, start))
    except MemoryError:
        conn.send({'contract': name, 'error': 'memory limit'})
    except BaseException:
        conn.send({'contract': name, 'error': traceback.format_exc()[-1500:]})
    conn.close()


def short(t):
    import z3
    z3.set_option(max_depth=10, max_args=12, max_lines=6, max_visited=300)
    return str(t)[:300]


def run_contract(prop, mods, name, tier, start=()):
    from . import api, loader, vc
    from .symS import SymS
    cfg = TIERS[tier]
    c = next(x for x in api.REG[prop] if x.name == name)
    opts = dict(c.opts)
    t0 = time.time()
    called = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'pyvc')

    def on_start(code, off):
        if '/pytracer/' in code.co_filename:
            called.add('%s:%s' % (code.co_filename[code.co_filename.rindex('/pytracer/') + 1:-3].replace('/', '.').replace('.__init__', ''),
                                  code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, on_start)
    mon.set_events(3, mon.events.PY_START)

    def path():
        S = SymS(opts)
        try:
            c.fn(S)
        finally:
            S.undo()
    budget = cfg['contract_s'] * opts.get('time', 1) * .5
    res = vc.explore(path, opts, max_paths=opts.get('max_paths', 4000), budget=budget, start=start)
    mon.set_events(3, 0)
    out = {'contract': name, 'paths': res.paths, 'undecided': res.undecided[:5], 'assumptions': sorted(res.assumptions),
           'bounded': sorted(res.bounded), 'called': sorted(called), 'inputs': sorted(res.inputs), 'obl': [], 'explore_s': res.time}
    names = {}
    seen = {}
    deadline = t0 + cfg['contract_s'] * opts.get('time', 1)
    nref = {}
    bypath = {}
    for o in res.obl:
        bypath.setdefault(o.path, []).append(o)
    for k, os_ in bypath.items():
        if time.time() < deadline:
            vc.discharge_path(os_, 3.)
    for o in res.obl:
        if o.status == 'proved':
            pass
        elif nref.get(o.name, 0) >= 3:
            # the same clause is already refuted on several paths
            o.status, o.backend = 'refuted', 'skipped'
        elif time.time() > deadline:
            o.status, o.backend = 'unknown', 'time'
        else:
            vc.discharge(o, timeout=min(cfg['solver_s'] * opts.get('solver', 1), max(1., deadline - time.time())))
        if o.status == 'refuted':
            nref[o.name] = nref.get(o.name, 0) + 1
        m = None
        if o.model:
            m = {k: (float(v) if not isinstance(v, bool) else v) for k, v in o.model.items()
                 if k in res.inputs}
            o_goal = str(vc.z3.simplify(o.goal))[:400]
        out['obl'].append(dict(name=o.name, kind=o.kind, where=o.where, status=o.status, backend=o.backend, time=round(o.time, 4),
                               model=m, info=o.info, path=o.path,
                               goal=short(o.goal) if o.status != 'proved' else None))
    # vacuity: some path on which a postcondition is checked must be satisfiable
    out['vacuous'] = False
    ens = [o for o in res.obl if o.kind in ('ensures', 'inv')]
    if ens:
        ok = False
        last = {}
        for o in ens:
            last[o.path] = o
        for o in list(last.values())[:24]:
            ax = vc.close_axioms(o.pc)
            fs, _ = vc.abstract(list(o.pc) + ax)
            s = vc.z3.Solver()
            s.set('timeout', 1000)
            for f in fs:
                s.add(f)
            if s.check() != vc.z3.unsat:
                ok = True
                break
        out['vacuous'] = not ok
    else:
        out['vacuous'] = not res.undecided
    out['time'] = time.time() - t0
    return out


def run_symbolic(prop, mods, contracts, tier, jobs):
    cfg = TIERS[tier]
    ctxm = mp.get_context('fork')
    pend = []
    for c in contracts:
        if not c.opts.get('concrete_only'):
            k = c.opts.get('shards', 0)        # 2**k processes, split on the first k decisions
            for i in range(2 ** k):
                pend.append((c, tuple(bool(i >> b & 1) for b in range(k))))
    pend.sort(key=lambda c: -c[0].opts.get('weight', 1))
    running, parts = [], {}
    while pend or running:
        while pend and len(running) < jobs:
            c, start = pend.pop(0)
            a, b = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(b, prop, mods, c.name, tier, start), daemon=True)
            p.start()
            b.close()
            running.append((c, p, a, time.time()))
        nxt = []
        for c, p, a, t in running:
            lim = cfg['contract_s'] * c.opts.get('time', 1) * 1.3 + 20
            r = None
            if a.poll(0.01):
                try:
                    r = a.recv()
                except EOFError:
                    r = {'contract': c.name, 'error': 'worker died'}
                p.join(2)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                r = {'contract': c.name, 'error': 'worker died (exit %s)' % p.exitcode}
            elif time.time() - t > lim:
                p.kill()
                r = {'contract': c.name, 'error': 'timeout %ds' % lim}
            else:
                nxt.append((c, p, a, t))
            if r is not None:
                parts.setdefault(c.name, []).append(r)
        running = nxt
    return {n: merge(rs) for n, rs in parts.items()}


def merge(rs):
    if len(rs) == 1:
        return rs[0]
    for r in rs:
        if 'error' in r:
            return r
    out = dict(rs[0])
    for k in ('undecided', 'obl'):
        out[k] = sum([r[k] for r in rs], [])
    for k in ('assumptions', 'bounded', 'called', 'inputs'):
        out[k] = sorted(set(sum([r[k] for r in rs], [])))
    out['paths'] = sum(r['paths'] for r in rs)
    out['time'] = max(r['time'] for r in rs)
    out['vacuous'] = all(r['vacuous'] for r in rs)
    return out


def conc_env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8', PYTHONHASHSEED='0',
             PYTHONWARNINGS='ignore')
    return e


class Conc:
    """concrete runs in the project interpreter, in parallel processes"""

    def __init__(self, prop, mods, items, seed, nproc, tmp, tag):
        self.ps = []
        groups = [items[i::nproc] for i in range(nproc)]
        for i, g in enumerate(groups):
            if not g:
                continue
            jf, of = os.path.join(tmp, '%s%d.json' % (tag, i)), os.path.join(tmp, '%s%d.out' % (tag, i))
            json.dump(dict(prop=prop, modules=mods, seed=seed, items=g), open(jf, 'w'))
            err = open(os.path.join(tmp, '%s%d.err' % (tag, i)), 'w+')
            p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(ROOT, 'pyvc', 'concrete.py'), jf, of], stdout=subprocess.DEVNULL,
                                 stderr=err, env=conc_env(), cwd=tmp)
            self.ps.append((p, of, g, err))

    def wait(self, limit):
        t0 = time.time()
        out, errs = {}, []
        for p, of, g, err in self.ps:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errs.append('concrete run stopped at its time limit: ' + ','.join(x['contract'] for x in g))
            if os.path.exists(of):
                try:
                    for r in json.load(open(of)):
                        out[r['contract']] = r
                except ValueError:
                    pass
            if p.returncode not in (0, None, -9):
                err.seek(0)
                errs.append('concrete runner: ' + err.read()[-800:])
            err.close()
        return out, errs


def load_known():
    kn = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split(' -- ')[0].split() if '=' in x)
                d['text'] = l.split(' -- ', 1)[1] if ' -- ' in l else ''
                kn.append(d)
    return kn


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in TIERS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = os.environ.get('PYVC_ONLY')
    jobs = int(os.environ.get('PYVC_JOBS', '8'))
    t0 = time.time()
    sys.path.insert(0, ROOT)
    sys.setrecursionlimit(20000)
    from . import api, loader
    mods = modules_for(prop)
    for m in mods:
        importlib.import_module(m)
    contracts = [c for c in api.REG.get(prop, []) if not only or re.search(only, c.name)]
    if not contracts:
        print('no contracts for', prop)
        return 3
    cfg = TIERS[tier]
    tmp = tempfile.mkdtemp(prefix='pyvc_')
    try:
        return run(prop, tier, seed, only, jobs, t0, mods, contracts, cfg, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, only, jobs, t0, mods, contracts, cfg, tmp):
    from . import loader
    load_err = None
    try:
        for t in contracts:
            for tg in t.target:
                loader.load(tg.split(':')[0])
    except Exception:
        load_err = traceback.format_exc()[-1200:]
    items = [dict(contract=c.name, n=int(cfg['conc_n'] * c.opts.get('n', 1)), secs=cfg['conc_s'] * c.opts.get('secs', 1)) for c in contracts
             if not c.opts.get('symbolic_only')]
    conc = Conc(prop, mods, items, seed, min(4, max(1, len(items))), tmp, 'r')
    if load_err is None:
        sym = run_symbolic(prop, mods, contracts, tier, max(1, jobs - 2))
    else:
        sym = {c.name: {'contract': c.name, 'error': 'sources not loadable symbolically: ' + load_err} for c in contracts
               if not c.opts.get('concrete_only')}
    cres, cerr = conc.wait(cfg['conc_s'] * 1.5 * max(1, len(items)) + 30)
    # ---- replay of counter-models on the real code
    rep_items, ref = [], {}
    for c in contracts:
        r = sym.get(c.name)
        if not r or 'error' in r:
            continue
        refs = [o for o in r['obl'] if o['status'] == 'refuted' and o['backend'] != 'skipped']
        if refs:
            ref[c.name] = refs
            ms, seen = [], set()
            for o in refs:
                if o['model']:
                    k = json.dumps(o['model'], sort_keys=True)
                    if k not in seen:
                        seen.add(k)
                        ms.append(o['model'])
            if ms and not c.opts.get('symbolic_only'):
                rep_items.append(dict(contract=c.name, n=0, models=ms[:12], tries=cfg['tries']))
    rres = {}
    if rep_items:
        rres, e2 = Conc(prop, mods, rep_items, seed, min(4, len(rep_items)), tmp, 'm').wait(120)
        cerr += e2
    known = [k for k in load_known() if k.get('property') == prop]
    viol, kfound = [], []

    def report(c, clause, data, nofail=False):
        for k in known:
            if k.get('contract') == c.name and k.get('clause') in (clause, '*'):
                kfound.append((k, clause))
                return
        viol.append((c, clause, data, nofail))

    for c in contracts:
        done = set()
        src = []
        for r in (rres.get(c.name), cres.get(c.name)):
            if r:
                src += [h for h in r['model_results'] if h] + r['failures']
        for h in src:
            cl = h['fails'][0]
            if cl in done:
                continue
            done.add(cl)
            report(c, cl, dict(inputs=h['inputs'], fails=h['fails'], kind='replayed on the real code'))
        if c.name in ref and not done:
            # refuted, not reproduced: only clauses of the contract itself count
            for o in ref[c.name]:
                if o['kind'] in ('exception', 'defined', 'lemma', 'inv') or o['name'] in done:
                    continue
                if c.opts.get('abstract_models'):
                    continue
                done.add(o['name'])
                report(c, o['name'], dict(inputs=o['model'], kind='refuted by the verifier, not reproduced', obligation=o), True)
    # ---- evidence
    nob = nd = 0
    back, called, assume, bounded, undecided, per = {}, set(), set(), [], [], []
    stime = 0.
    for c in contracts:
        r = sym.get(c.name)
        cr = cres.get(c.name, {})
        ent = dict(contract=c.name, target=c.target, concrete_runs=cr.get('ok', 0), concrete_evals=cr.get('evals', 0))
        if cr.get('spec_errors'):
            ent['spec_errors'] = cr['spec_errors']
            ent['spec_error'] = cr['spec_error']
        if c.opts.get('concrete_only'):
            ent['status'] = 'bounded'
            bounded.append('%s: %s' % (c.name, c.opts.get('bounded', 'run-time contract check only')))
        elif r is None or 'error' in r:
            ent['status'] = 'undecided'
            ent['error'] = (r or {}).get('error', 'not run')
            undecided.append('%s: %s' % (c.name, ent['error'][-200:]))
        else:
            k = len(r['obl'])
            p = sum(1 for o in r['obl'] if o['status'] == 'proved')
            nob += k
            nd += p
            for o in r['obl']:
                b = o['backend'] if o['status'] == 'proved' else o['status']
                back[b] = back.get(b, 0) + 1
                stime += o['time']
            called |= set(r['called'])
            assume |= set(r['assumptions'])
            unk = [o for o in r['obl'] if o['status'] != 'proved']
            if r['bounded'] or c.opts.get('bounded'):
                bounded.append('%s: %s' % (c.name, c.opts.get('bounded') or '; '.join(r['bounded'])))
            st = 'proved'
            if r['undecided'] or unk or r['vacuous'] or k == 0:
                st = 'undecided'
                undecided.append('%s: %s' % (c.name, '; '.join(r['undecided'][:2] + ['%s %s (%s)' % (o['name'], o['status'], o['where'])
                                                                                   for o in unk[:4]] + (['vacuous'] if r['vacuous'] else []))))
            elif r['bounded'] or c.opts.get('bounded'):
                st = 'bounded'
            ent.update(status=st, obligations=k, discharged=p, paths=r['paths'], time=round(r['time'], 2),
                       clauses=sorted({o['name'] for o in r['obl']}))
        per.append(ent)
    proved = [e['contract'] for e in per if e['status'] == 'proved']
    manifest_level = level_of(prop)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': manifest_level,
        'coverage': {
            'obligations': nob, 'discharged': nd,
            'checker_cmd': 'python3-vt -m pyvc.check %s (VC generator over /repo sources; back ends z3 5.3 API, polynomial normal form, cvc5)' % prop,
            'trusted_base': ['pyvc VC generator and its exact-real model of numpy (pyvc/npx.py), cross-checked by concrete runs of the same contracts on the real code',
                             'z3, cvc5', 'axioms for sqrt/sin/cos/acos/atan2/exp/log/pow (pyvc/vc.py axioms_for)'],
            'backends': back, 'solver_seconds': round(stime, 2),
            'functions_under_contract': sorted({t for c in contracts for t in c.target}),
            'functions_executed_symbolically': sorted(called),
            'contracts_proved': len(proved), 'contracts_bounded': bounded, 'contracts_undecided': undecided,
            'evaluations': sum(e.get('concrete_evals', 0) for e in per),
            'distinct_nontrivial': sum(e.get('concrete_runs', 0) for e in per),
            'rule': 'concrete cross-check: a run is counted when all requires hold and every ensures of the contract was evaluated on the real code',
            'explanation': 'per-contract results in "contracts"',
            'samples': [cres[c.name]['sample'] for c in contracts if c.name in cres and cres[c.name].get('sample')][:5],
            'contracts': per, 'concrete_errors': cerr,
        },
        'assumptions': sorted(assume | {'machine floating point treated as mathematical reals (inf/nan followed as IEEE values)',
                                        'numpy array semantics as modelled in pyvc/npx.py'}),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if not only and REPO == '/repo':
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if os.environ.get('PYVC_VERBOSE'):
        for e in per:
            print(json.dumps({k: v for k, v in e.items() if k not in ('clauses',)}))
        for c in contracts:
            r = sym.get(c.name)
            if r and 'obl' in r:
                shown = {}
                for o in r['obl']:
                    if o['status'] != 'proved' and o['backend'] != 'skipped':
                        k = (o['name'], o['status'], o['where'])
                        shown[k] = shown.get(k, 0) + 1
                        if shown[k] <= 1 and len(shown) < 15:
                            print('   ', c.name, '|', o['name'], '|', o['kind'], o['status'], o['backend'], o['where'], 'path', o['path'], 'model', str(o['model'])[:150],
                                  o['info'], ' '.join((o['goal'] or '').split())[:160])
                for k, v in shown.items():
                    if v > 1:
                        print('      x%d' % v, k[0][:60], k[1], k[2])
        for e in cerr:
            print('CERR', e)
    print('%s: %d contracts, %d proved, %d bounded, %d undecided; %d/%d obligations discharged; %d concrete evaluations; %.1fs' % (
        prop, len(contracts), len(proved), len(bounded), len(undecided), nd, nob, ev['coverage']['evaluations'], time.time() - t0))
    for u in undecided:
        print('  undecided', u[:300])
    for k, cl in kfound:
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('text') or (k.get('contract') + ' ' + cl)))
    if viol:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        # violations with a replayed input first
        viol.sort(key=lambda v: v[3])
        for c, clause, data, nofail in viol[:6]:
            h = hashlib.sha1(json.dumps([c.name, clause, data], sort_keys=True, default=str).encode()).hexdigest()[:10]
            p = os.path.join(rd, '%s_%s_%s.json' % (prop, c.name, h))
            r = sym.get(c.name) or {}
            json.dump(dict(property=prop, contract=c.name, target=c.target, failed_clause=clause, data=data, modules=mods,
                           verifier=[o for o in r.get('obl', []) if o['status'] == 'refuted'][:6],
                           rerun='%s %s %s' % (os.path.join(ROOT, 'replay.sh'), p, '')), open(p, 'w'), indent=1, default=str)
            print('  contract %s of %s: clause %s; %s' % (c.name, ','.join(c.target), clause, str(data.get('fails') or data.get('obligation', {}).get('where'))[:300]))
            print('VIOLATION property=%s replay=%s%s' % (prop, p, ' no-failing-input-found' if nofail else ''))
        return 1
    if cerr and not cres and load_err:
        print('check error:', cerr[:1])
        return 3
    return 0


def level_of(prop):
    try:
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    sys.exit(main())
