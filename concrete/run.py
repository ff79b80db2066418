"""Evaluates the executable contracts (oracles) of a property on the real code.
run.py PROP --out F --seed S --budget SECS [--oracle NAME --only ITER] [--search]"""
import argparse, importlib, json, os, sys, time, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
warnings.filterwarnings('ignore')
from concrete import lib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--out'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--budget', type=float, default=30)
    ap.add_argument('--oracle'); ap.add_argument('--only', type=int); ap.add_argument('--search', action='store_true')
    a = ap.parse_args()
    for f in sorted(os.listdir(HERE)):
        if f.startswith('o_') and f.endswith('.py'): importlib.import_module('concrete.' + f[:-3])
    ors = [o for o in lib.ORACLES if a.prop in o.props and (not a.oracle or o.name == a.oracle)]
    res = dict(oracles={}, violations=[], samples=[])
    t0 = time.time()
    for n, o in enumerate(ors):
        left = a.budget - (time.time() - t0)
        share = max(1.0, left / (len(ors) - n))
        t1 = time.time(); i = 0; seen_keys = set()
        iters = o.iters * (20 if a.search else 1)
        while i < iters:
            if a.only is not None and i != a.only: i += 1; continue
            if i >= o.min_iters and time.time() - t1 > share: break
            seed = a.seed + (7919 if a.search else 0)
            v = lib.run_once(o, seed, i)
            if v is not None:
                key = v.get('key')
                if key is None or key not in seen_keys:
                    v.update(oracle=o.name, iteration=i, seed=seed)
                    res['violations'].append(v)
                seen_keys.add(key)
                if key is None: i += 1; break
            i += 1
        res['oracles'][o.name] = dict(runs=i, secs=round(time.time() - t1, 2), what=o.what)
        if o.sample: res['samples'].append(dict(oracle=o.name, case=o.sample))
    if a.out: json.dump(res, open(a.out, 'w'), default=str)
    else: print(json.dumps(res, indent=1, default=str))
    return 1 if res['violations'] and not a.out else 0


if __name__ == '__main__':
    sys.exit(main())
