#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> -- decides one property on /repo's current tree.

1. Every contract registered for the property (contracts/*.py) is verified against the real source of
   /repo (pyvc: all paths, all inputs, loops by invariants or one arbitrary iteration); the deciding
   step is that every obligation is discharged.
2. The executable contracts of the property (concrete/*.py) are evaluated on the real code under its
   own interpreter; they replay counterexamples and search a failing input when an obligation fails.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
PY = os.environ.get('PYVC_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('PYVC_REPO', '/repo')
WORKERS = int(os.environ.get('PYVC_WORKERS', str(max(2, (os.cpu_count() or 4)))))
HARD = 820.0


def load_units(prop):
    from pyvc import runner
    names = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, 'contracts')) if f.endswith('.py') and not f.startswith('_'))
    for n in names:
        importlib.import_module('contracts.' + n)
    return [u for u in runner.UNITS if u.prop == prop]


def run_one(prop, i, scale):
    from pyvc import runner
    us = load_units(prop)
    u = us[i]
    try:
        if scale != 1:
            u.slow *= scale; u.budget *= scale
        return runner.run_unit(u, TIER)
    except Exception as e:
        import traceback
        return [dict(unit=u.id, mode='crash', functions=u.functions, paths=0, completed=0, obligations=0, discharged=0, failures=[], unsupported='verifier: ' + traceback.format_exc()[-800:],
                     truncated=False, assumed=[], contracts=[], secs=0, solver_secs=0, named={}, note=u.note)]


def concrete_start(prop, budget, search=False):
    out = os.path.join(HERE, 'evidence', '.concrete_%s_%d.json' % (prop, os.getpid()))
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    cmd = [PY, os.path.join(HERE, 'concrete', 'run.py'), prop, '--out', out, '--seed', str(SEED), '--budget', str(budget)] + (['--search'] if search else [])
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=os.path.join(HERE, 'evidence'))
    return p, out


def concrete_wait(po, limit):
    p, out = po
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        err = 'time limit'
    r = None
    if os.path.exists(out):
        try: r = json.load(open(out))
        except ValueError: r = None
        os.unlink(out)
    if r is None: r = dict(error=(err or '')[-1500:], oracles={}, violations=[])
    return r


def known(prop):
    fs = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l[len('finding: property=%s ' % prop):]
                key, _, text = rest.partition(' ')
                fs.append((key[len('key='):] if key.startswith('key=') else key, text))
    return fs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--unit')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-retry', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cbudget = 35 if TIER == 'quick' else 200
    conc = None if a.no_concrete else concrete_start(prop, cbudget)

    cres = None
    units = load_units(prop)
    idx = [i for i, u in enumerate(units) if not a.unit or a.unit in u.id]
    results = {}
    if idx:
        order = sorted(idx, key=lambda i: -units[i].budget)
        ctxm = mp.get_context('fork')
        with cf.ProcessPoolExecutor(max_workers=min(WORKERS, len(idx)), mp_context=ctxm) as ex:
            futs = {ex.submit(run_one, prop, i, 1): i for i in order}
            for f in cf.as_completed(futs):
                try: results[futs[f]] = f.result()
                except Exception as e:
                    results[futs[f]] = [dict(unit=units[futs[f]].id, mode='crash', functions=[], paths=0, completed=0, obligations=0, discharged=0, failures=[], unsupported='verifier process: %r' % (e,),
                                             truncated=False, assumed=[], contracts=[], secs=0, solver_secs=0, named={}, note='')]
        # undischarged obligations get a second, longer attempt before they count
        if conc and any(results[i][-1]['failures'] for i in idx):
            cres = concrete_wait(conc, cbudget * 3 + 200); conc = None
        hit = cres and any(v.get('key') not in [k for k, _ in known(prop)] for v in cres.get('violations', []))
        retry = [] if hit else [i for i in idx if results[i][-1]['failures'] and time.time() - t0 < 300 and not a.no_retry]
        if retry:
            with cf.ProcessPoolExecutor(max_workers=min(max(2, WORKERS // 2), len(retry)), mp_context=ctxm) as ex:
                scale = max(1.0, min(2.5, (600 - (time.time() - t0)) / 240))
                futs = {ex.submit(run_one, prop, i, scale): i for i in retry}
                for f in cf.as_completed(futs):
                    try: r = f.result()
                    except Exception: continue
                    results[futs[f]] = r
    if cres is None: cres = concrete_wait(conc, cbudget * 3 + 200) if conc else dict(oracles={}, violations=[])

    flat, bad, unsup, bounded_units = [], [], [], []
    for i in idx:
        rs = results[i]
        r = rs[-1]
        flat.append(dict(r, fallback_from=rs[0]['unsupported'] if len(rs) > 1 else None))
        if r['failures']: bad.append(r)
        elif r['unsupported']: unsup.append(r)
        elif r['obligations'] == 0 or r['completed'] == 0: bad.append(dict(r, failures=[dict(obligation='the contract is not vacuous', status='unknown', goal='', backend='', model='', path='')]))
        if r['mode'] == 'bounded': bounded_units.append(r['unit'])

    kf = known(prop)
    viol, known_hit = [], []
    for v in cres.get('violations', []):
        k = [x for x in kf if x[0] == v.get('key')]
        (known_hit if k else viol).append(v)
    # failed obligations that are the listed findings
    bad2 = []
    for r in bad:
        fs = [f for f in r['failures'] if not any(f['obligation'].startswith('[' + k + ']') for k, _ in kf)]
        known_hit += [dict(key=k) for f in r['failures'] for k, _ in kf if f['obligation'].startswith('[' + k + ']')]
        if fs: bad2.append(dict(r, failures=fs))
    bad = bad2
    searched = None
    if (bad or unsup) and not viol and not a.no_concrete:
        left = HARD - (time.time() - t0) - 30
        if left > 20:
            b = min(150 if TIER == 'quick' else 300, left * .7)
            searched = concrete_wait(concrete_start(prop, b, search=True), left)
            viol = [v for v in searched.get('violations', []) if not any(x[0] == v.get('key') for x in kf)]

    nkf = sum(1 for r in flat for f in r['failures'] for k, _ in kf if f['obligation'].startswith('[' + k + ']'))
    nob = sum(r['obligations'] for r in flat) - nkf
    ndis = sum(r['discharged'] for r in flat)
    conc_n = sum(o['runs'] for o in cres.get('oracles', {}).values())
    man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']} if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else {}
    level = man.get(prop, {}).get('level', 'other')
    fns = sorted({f for r in flat for f in r['functions']})
    backends = {}
    for r in flat:
        for n, p in r['named'].items():
            for bk in p['backends']:
                for x in bk.replace('cases(', '').replace(')', '').split('+'):
                    backends[x] = backends.get(x, 0) + 1
    assumed = sorted({x for r in flat for x in r['assumed']} | set(BASE_ASSUMPTIONS))
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3-vt check.py %s' % prop,
               trusted_base=['pyvc (path exploration, numpy model, obligation generation) in /verif/pyvc', 'z3 %s, cvc5, ring normal form' % z3v(), 'CPython executing the instrumented source of /repo'],
               explanation='%d contract units over the real source: %d obligations, %d discharged%s. The executable contracts were evaluated %d times on the real code (never counted as proved).' % (
                   len(flat), nob, ndis, ('; bounded stand-ins (lengths up to the stated bound, not proofs): ' + ', '.join('%s (<=%d)' % (u, [x for x in units if x.id == u][0].maxlen) for u in bounded_units)) if bounded_units else '; no bounded stand-ins', conc_n),
               functions_under_contract=fns, known_finding_obligations_left_out=nkf, bounded_units=bounded_units,
               bounded_obligations=sum(r['obligations'] for r in flat if r['mode'] == 'bounded'),
               unbounded_obligations=sum(r['obligations'] for r in flat if r['mode'] == 'unbounded'),
               solver_seconds=round(sum(r['solver_secs'] for r in flat), 1), backends=backends,
               contracts_used_at_call_sites=sorted({x for r in flat for x in r['contracts']}),
               units=[dict(unit=r['unit'], mode=r['mode'], what=r['note'], paths=r['paths'], obligations=r['obligations'], discharged=r['discharged'], secs=r['secs'],
                           outside_unbounded_subset=r['fallback_from'], truncated_unrolling=r['truncated'], named=r['named']) for r in flat],
               evaluations=conc_n, samples=cres.get('samples', [])[:3],
               concrete=dict((k, dict(runs=o['runs'], secs=o['secs'], what=o['what'])) for k, o in cres.get('oracles', {}).items()))
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumed, wall_s=round(time.time() - t0, 2), violations=0)
    for k, text in kf:
        if any(v.get('key') == k for v in known_hit): print('KNOWN-FINDING: property=%s %s' % (prop, text))
    rc = 0
    replay = os.path.join(HERE, 'evidence', 'replay_%s.json' % prop)
    if viol or bad or unsup:
        rc = 1
        ev['violations'] = max(1, len(viol) + len(bad) + len(unsup))
        doc = dict(property=prop, failing_inputs=viol, failed_obligations=[dict(unit=r['unit'], mode=r['mode'], failures=r['failures']) for r in bad],
                   undecided=[dict(unit=r['unit'], reason=r['unsupported']) for r in unsup],
                   how_to_replay='PYTHONPATH=%s %s %s %s --oracle <oracle> --seed <seed> --only <iteration>' % (REPO, PY, os.path.join(HERE, 'concrete', 'run.py'), prop))
        json.dump(doc, open(replay, 'w'), indent=1, default=str)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if cres.get('error') and not viol:
        print('note: the executable contracts could not be evaluated: %s' % cres['error'][-300:])
        if not (bad or unsup):
            print('ERROR'); return 2
    for r in bad:
        for f in r['failures'][:4]: print('undischarged: %s [%s] %s (%s)' % (r['unit'], r['mode'], f['obligation'], f['status']))
    for r in unsup: print('undecided: %s %s' % (r['unit'], r['unsupported'][-300:]))
    for v in viol[:4]: print('failing input: %s %s: %s' % (v['oracle'], v['what'], str(v.get('inputs'))[:400]))
    print('%s: %d units, %d/%d obligations discharged, %d executable checks, %.1f s' % (prop, len(flat), ndis, nob, conc_n, time.time() - t0))
    if a.v:
        for r in flat: print('   %-40s %-9s paths=%d obl=%d/%d %.1fs %s' % (r['unit'], r['mode'], r['paths'], r['discharged'], r['obligations'], r['secs'], r['fallback_from'] or ''))
        for k, o in cres.get('oracles', {}).items(): print('   concrete %-30s runs=%d %.1fs' % (k, o['runs'], o['secs']))
    if not flat:
        print('ERROR: no contract for this property'); return 2
    if rc:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if viol else ' no-failing-input-found'))
    return rc


def z3v():
    import z3
    return z3.get_version_string()


BASE_ASSUMPTIONS = [
    'floating-point arithmetic is treated as real arithmetic (rounding, overflow, underflow not modelled)',
    'machine integers are treated as mathematical integers',
    'uniform draws lie strictly between zero and one; normal, gamma, exponential, wald, chi-square, poisson draws have the stated support and law (numpy.random is trusted)',
    'numpy operations follow the model in pyvc/npmodel.py (trusted, cross-checked against numpy on concrete inputs)',
    'partial correctness: termination of the code is not proved',
]

if __name__ == '__main__':
    sys.exit(main())
