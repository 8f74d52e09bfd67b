#!/usr/bin/env python3
"""Check one property:  check.py PROP [--tier quick|thorough]

Deciding step: the deductive engine (pv/, contracts in specs/) generates every obligation of the property from
/repo's current source and must discharge all of them.  An obligation that is not discharged is reported as a
violation; the runtime form of the same contracts (rt/) searches a concrete failing input on the real code and, if
there is one, the replay file holds it.  The runtime contracts also run when everything is discharged (bounded
cross-check of what the engine assumes); a concrete failing input is a violation as well.
"""
import argparse
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PARAGAMI_REPO', '/repo')
PY_REAL = os.environ.get('PARAGAMI_PY', '/opt/venv/bin/python')
PY_ENG = os.environ.get('PV_PY', '/opt/veriftools/pyvenv/bin/python')
sys.path.insert(0, VERIF)


def spawn(cmd, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
    return subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=open(out + '.stdout', 'w'),
                            stderr=subprocess.STDOUT, start_new_session=True)


def wait(p, deadline):
    try:
        p.wait(max(1.0, deadline - time.time()))
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return False


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def tail(path, n=3000):
    try:
        return open(path, errors='replace').read()[-n:]
    except OSError:
        return ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, ('thorough' if a.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = t0 + (560 if tier == 'quick' else 3000)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    base = os.path.join(evd, '.%s.%d' % (prop, os.getpid()))
    rt_out, pv_out = base + '.rt.json', base + '.pv.json'
    from specs import SPECS
    has_engine = prop in SPECS
    pv = None
    if has_engine:
        pv = spawn([PY_ENG, '-m', 'pv.run', prop, '--tier', tier, '--out', pv_out], pv_out)
    rt = spawn([PY_REAL, os.path.join(VERIF, 'rt', 'run.py'), prop, '--seed', str(seed), '--tier', tier,
                '--out', rt_out], rt_out)
    rt_done = wait(rt, limit)
    pv_done = wait(pv, limit) if pv else True
    R, P = load(rt_out), load(pv_out)
    rt_log, pv_log = tail(rt_out + '.stdout'), tail(pv_out + '.stdout')
    for f in (rt_out, pv_out, rt_out + '.stdout', pv_out + '.stdout'):
        if os.path.exists(f):
            os.remove(f)

    failed = []            # undischarged obligations
    if pv:
        if not pv_done:
            failed.append({'name': 'engine: no result within the time limit', 'detail': pv_log})
        elif P is None:
            failed.append({'name': 'engine: no result', 'detail': pv_log})
        else:
            failed = list(P['failed'])
            if not failed and P['obligations'] == 0:
                failed.append({'name': 'engine: no obligation was generated', 'detail': pv_log})
    concrete = R.get('failure') if R else None
    if R is None:
        failed.append({'name': 'runtime contracts: no result' + ('' if rt_done else ' within the time limit'),
                       'detail': rt_log})
    if failed and not concrete and R is not None:
        # look harder for a failing input: other seeds
        for extra in range(1, 4):
            if time.time() > limit - 60:
                break
            o = base + '.x.json'
            x = spawn([PY_REAL, os.path.join(VERIF, 'rt', 'run.py'), prop, '--seed', str(seed + 1000 * extra),
                       '--tier', tier, '--budget', '60', '--out', o], o)
            wait(x, min(limit, time.time() + 90))
            X = load(o)
            for f in (o, o + '.stdout'):
                if os.path.exists(f):
                    os.remove(f)
            if X:
                R['runs'] += X['runs']
                R['distinct'] += X['distinct']
                R['clauses'] += X['clauses']
                if X.get('failure'):
                    concrete = X['failure']
                    break

    # ---- evidence
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if (failed or concrete) else 0}
    cov = {}
    if pv:
        ev['level'] = SPECS[prop].get('level', 'proof')
        q = P or {'obligations': 0, 'discharged': 0}
        for k in ('obligations', 'discharged', 'by_backend', 'solver_seconds', 'functions', 'entry_points', 'paths',
                  'vacuity', 'bounded', 'checker_version'):
            if k in q:
                cov[k] = q[k]
        cov.setdefault('obligations', 0)
        cov.setdefault('discharged', 0)
        cov['checker_cmd'] = '%s -m pv.run %s --tier %s' % (PY_ENG, prop, tier)
        cov['trusted_base'] = q.get('trusted_base', [])
        ev['assumptions'] = q.get('assumptions', [])
        cov['undischarged'] = [f['name'] for f in failed][:50]
    else:
        ev['level'] = 'exploration'
    if R:
        key = 'runtime_cross_check' if pv else None
        c = {'evaluations': R['runs'], 'distinct_nontrivial': R['distinct'],
             'rule': 'random instances of the property (patterns, values, modes, call histories drawn from VERIF_SEED '
                     'by rt/model.py) run on the real code with the contract evaluated at run time; non-trivial: at '
                     'least one contract clause was evaluated; distinct: different draws of the generator',
             'contract_clauses_evaluated': R['clauses'], 'per_case': R['cases'], 'samples': R['samples'],
             'exhaustive': False, 'seconds': R['seconds']}
        if key:
            cov[key] = c
            if ev['level'] != 'proof':
                for k in ('evaluations', 'distinct_nontrivial', 'rule', 'samples'):
                    cov[k] = c[k]
        else:
            cov.update(c)
    if not cov:
        cov['explanation'] = 'no result'
    ev['coverage'] = cov
    tmp = base + '.tmp'
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(evd, prop + '.json'))

    # ---- verdict
    for k in (R or {}).get('known', []):
        # listed in known_findings.txt as  known: property=<id> case=<case> match=<text> :: what fails
        print('KNOWN-FINDING: property=%s %s' % (prop, k.split('::', 1)[-1].strip()))
    if not failed and not concrete:
        n = P['obligations'] if P else 0
        print('OK property=%s obligations=%d discharged=%d runtime_instances=%d' %
              (prop, n, P['discharged'] if P else 0, R['runs']))
        return 0
    rdir = os.path.join(evd, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-%s.json' % (prop, 'input' if concrete else 'obligation'))
    rep = {'property': prop, 'failed_obligations': failed[:40]}
    if concrete:
        rep.update(concrete)
        rep['replay_cmd'] = '%s %s %s --replay %s' % (PY_REAL, os.path.join(VERIF, 'rt', 'run.py'), prop, path)
    else:
        rep['note'] = 'no failing input was found; the verifier output of each failed obligation is above'
    json.dump(rep, open(path, 'w'), indent=1)
    for f in failed[:10]:
        print('undischarged: %s' % f['name'])
        if f.get('detail'):
            print('   ' + str(f['detail'])[:600].replace('\n', '\n   '))
    if concrete:
        print('failing input: case %s, seed %s, index %s' % (concrete['case'], concrete['seed'], concrete['index']))
        print('   ' + concrete['error'][:1500].replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    return 1


if __name__ == '__main__':
    sys.exit(main())
