"""Run the runtime contracts of a property on the real code (bounded: random and enumerated inputs).

  run.py PROP [--seed N] [--tier quick|thorough] [--budget S] [--out JSON]
  run.py PROP --replay FILE      (one instance: the file names the case, the seed and the index)
"""
import argparse
import json
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('PARAGAMI_REPO', '/repo')
sys.path.insert(0, REPO)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')


def too_long(sig, frame):
    raise TimeoutError('the instance did not finish within 120 s')


def load():
    signal.signal(signal.SIGALRM, too_long)
    import numpy as np
    np.seterr(all='ignore')
    from rt import core
    import importlib
    for m in ('cases_patterns', 'cases_functions'):
        importlib.import_module('rt.' + m)
    return core


def one(core, prop, name, fn, seed, i):
    """one instance; returns (fingerprint of its random draws, clauses evaluated)"""
    import numpy as np
    c0 = core.CLAUSES[0]
    del core.SEEN[:]
    rng = np.random.default_rng(core.seed_of(name, seed, i))
    np.random.seed(int(rng.integers(0, 2 ** 31)))
    signal.alarm(120)
    try:
        fn(rng)
    finally:
        signal.alarm(0)
    return (name, str(rng.bit_generator.state['state'])), core.CLAUSES[0] - c0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--replay', default='')
    ap.add_argument('--out', default='')
    a = ap.parse_args()
    t0 = time.time()
    res = {'prop': a.prop, 'runs': 0, 'distinct': 0, 'clauses': 0, 'cases': {}, 'samples': [], 'failure': None}
    only = None
    if a.replay:
        rep = json.load(open(a.replay))
        only = (rep['case'], rep['seed'], rep['index'])
        a.seed = rep['seed']
    prints = set()
    res['known'] = []
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'known_findings.txt')) as f:
        listed = [l.strip() for l in f if l.startswith('known: property=%s ' % a.prop)]
    try:
        core = load()
    except Exception:
        res['failure'] = {'case': 'import', 'seed': a.seed, 'index': 0, 'error': traceback.format_exc()}
        core = None
    if core is not None:
        mine = [c for c in core.CASES if c[0] == a.prop]
        budget = a.budget or (45 if a.tier == 'quick' else 400)
        mult = 4 if a.tier == 'quick' else 30
        plan = []
        top = max([c[3] for c in mine] or [1])
        for r in range(top * mult):
            for c in mine:
                if r < c[3] * mult:
                    plan.append((c, r))
        if only is not None:
            plan = [(c, only[2]) for c in mine if c[1] == only[0]]
        for (p, name, fn, n), i in plan:
            if time.time() - t0 > budget:
                break
            try:
                fp, k = one(core, p, name, fn, a.seed, i)
            except Exception as e:
                hit = next((k for k in listed if 'case=%s ' % name in k and
                            k.split('match=', 1)[-1].split(' :: ')[0] in str(e)), None)
                if hit is not None:
                    if hit not in res['known']:
                        res['known'].append(hit)
                    continue
                res['failure'] = {'case': name, 'seed': a.seed, 'index': i,
                                  'error': '%s: %s' % (type(e).__name__, e),
                                  'trace': traceback.format_exc()[-4000:]}
                break
            res['runs'] += 1
            res['clauses'] += k
            if k:
                if name not in res['cases'] and len(res['samples']) < 12:
                    res['samples'].append({'case': name, 'seed': a.seed, 'index': i, 'clauses': k,
                                           'looked_at': [list(x) for x in core.SEEN]})
                prints.add(fp)
            res['cases'][name] = res['cases'].get(name, 0) + 1
    res['distinct'] = len(prints)
    res['seconds'] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        print(json.dumps(res, indent=1))
    return 1 if res['failure'] else 0


if __name__ == '__main__':
    sys.exit(main())
