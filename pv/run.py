"""Generates and discharges the obligations of one property:  python -m pv.run C01 --tier quick --out f.json"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import z3
from . import terms as tm, prover
from .values import PyRaise, Unsupported, PathDead
from .env import Env, SpecError
from .interp import Obligation


class CaseTimeout(Exception):
    pass


class Run:
    def __init__(self, prop, case, tier):
        self.prop, self.case, self.tier = prop, case, tier
        self.timeout = 6000 if tier == 'quick' else 30000
        self.obls = []
        self.paths = 0
        self.dead = 0
        self.vacuous = 0
        self.functions = set()
        self.entry = set()
        self.files = set()
        self.assumed = set()
        self.stop_on_fail = True
        self.failing = False

    def record(self, o):
        self.obls.append((o.name, o.ok, o.note, o.path, o.goal, o.facts if not o.ok else None, o.model))
        if not o.ok and not self.failing:
            # decided: a little longer, to list what else fails
            self.failing = True
            left = signal.alarm(0)
            signal.alarm(max(1, min(left or 45, 45)))

    def loop_inv(self, name):
        return None


def run_case(prop, name, fn, tier, override=None, limit=240):
    r = Run(prop, name, tier)
    err = None
    t0 = time.time()

    def onalarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    stack = [[]]
    try:
        while stack:
            prefix = stack.pop()
            r.paths += 1
            if r.paths > 600:
                err = 'too many paths'
                break
            e = Env(r, prefix, override)
            n0 = len(r.obls)
            try:
                fn(e)
            except PathDead:
                r.dead += 1
                stack.extend(e.cx.deciders[0].alts)
                continue
            except PyRaise as x:
                e.cx.fail('no unexpected exception', 'raised %r at %s' % (x.exc, getattr(x, 'where', '')))
            except Unsupported as x:
                o = Obligation('verifier reaches the code', tm.FALSE, list(e.cx.facts), False, None,
                               'outside the supported subset: %s (%s)' % (x, getattr(x, 'where', '')))
                if prover.prove(e.cx.facts, tm.FALSE, timeout=3000):
                    o.ok, o.note = True, 'path infeasible'
                o.path = ' & '.join(e.cx.labels)
                r.record(o)
            finally:
                r.functions |= {'%s' % f for f in e.w.called}
                r.entry |= e.entry
                r.files |= {os.path.basename(f) for f in e.w.loaded_files}
                r.assumed |= getattr(e.w, 'assumed', set())
            if len(e.cx.deciders) and True:
                stack.extend(e.cx.deciders[0].alts)
            if prover.consistent(e.cx.facts, 1500) == 'unsat':
                r.vacuous += 1
            if any(not x[1] for x in r.obls[n0:]) and r.stop_on_fail and sum(not x[1] for x in r.obls) > 8:
                break
    except CaseTimeout:
        err = 'time limit of %d s' % limit
    except SpecError as x:
        err = 'specification: %s' % x
    except RecursionError:
        err = 'recursion limit'
    except Exception:
        err = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    if err is None and r.paths and r.vacuous + r.dead >= r.paths:
        err = 'vacuous: no consistent path'
    obls = {}
    failed = []
    for n, ok, note, path, goal, facts, model in r.obls:
        key = '%s / %s' % (name, n)
        a = obls.setdefault(key, [0, 0])
        a[0] += 1
        a[1] += bool(ok)
        if not ok and len(failed) < 12:
            d = 'path: %s\nnote: %s\ngoal: %s\n' % (path, note, str(goal)[:600])
            if facts:
                d += 'facts: %s\n' % '; '.join(str(f)[:200] for f in facts[:40])
            if model:
                d += 'model: %s\n' % {str(k)[:60]: v for k, v in list(model.items())[:40]}
            failed.append({'name': key, 'detail': d[:4000]})
    if err:
        failed.append({'name': '%s / verified' % name, 'detail': err})
    return {'case': name, 'obls': {k: v for k, v in obls.items()}, 'failed': failed, 'paths': r.paths, 'dead': r.dead,
            'vacuous': r.vacuous, 'functions': sorted(r.functions), 'entry': sorted(r.entry),
            'files': sorted(r.files), 'assumed': sorted(r.assumed), 'seconds': time.time() - t0, 'error': err,
            'stats': dict(prover.STATS)}


_cases = {}


def _work(args):
    prop, i, tier, limit = args
    name, fn = _cases[prop][i]
    prover._cache.clear()
    prover.STATS.update({'queries': 0, 'z3_s': 0.0, 'simplifier': 0, 'z3': 0})
    return run_case(prop, name, fn, tier, limit=limit)


def run_prop(prop, tier, only=None, jobs=8, limit=None):
    from specs import registry
    m = registry.meta(prop)
    cases = [(n, f) for n, f in registry.cases(prop, tier) if only is None or only in n]
    _cases[prop] = cases
    limit = limit or (300 if tier == 'quick' else 1500)
    jobsl = [(prop, i, tier, limit) for i in range(len(cases))]
    if jobs == 1:
        res = [_work(j) for j in jobsl]
    else:
        with mp.get_context('fork').Pool(jobs, maxtasksperchild=4) as pool:
            res = list(pool.imap_unordered(_work, jobsl))
    return m, cases, res


TRUSTED = [
    'pv/: the verification-condition generator (symbolic execution of the Python AST of /repo/paragami, inductive loop '
    'rule), its term normaliser, and z3 %s' % z3.get_version_string(),
    'contracts of dependencies in pv/npm.py, pv/npfun.py, pv/npfun2.py, pv/deps.py (numpy, scipy.sparse, autograd, '
    'json, copy, math, itertools): assumed, exercised by the runtime cross-check',
    'floating-point arithmetic treated as exact real arithmetic; machine integers as mathematical integers',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    t0 = time.time()
    m, cases, res = run_prop(a.prop, a.tier, a.only, a.jobs)
    n = sum(v[0] for r in res for v in r['obls'].values())
    d = sum(v[1] for r in res for v in r['obls'].values())
    failed = [f for r in res for f in r['failed']]
    out = {
        'obligations': n + sum(1 for r in res if r['error']), 'discharged': d, 'failed': failed,
        'distinct_obligation_names': sum(len(r['obls']) for r in res),
        'by_backend': {'normaliser (polynomial / structural identity)': sum(r['stats']['simplifier'] for r in res),
                       'z3': sum(r['stats']['z3'] for r in res)},
        'solver_seconds': round(sum(r['stats']['z3_s'] for r in res), 2),
        'functions': sorted({f for r in res for f in r['functions']}),
        'entry_points': sorted({f for r in res for f in r['entry']}),
        'paths': {'executed': sum(r['paths'] for r in res), 'pruned_infeasible': sum(r['dead'] for r in res),
                  'refuted_afterwards': sum(r['vacuous'] for r in res)},
        'vacuity': 'the facts of at least one path of each of the %d cases were checked satisfiable (not refuted)' %
                   len(cases),
        'bounded': m.get('bounded', []),
        'checker_version': 'z3 ' + z3.get_version_string(),
        'trusted_base': TRUSTED + sorted({x for r in res for x in r['assumed']}),
        'assumptions': m.get('assumptions', []),
        'seconds': round(time.time() - t0, 1),
    }
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1)
    if a.v or not a.out:
        for r in sorted(res, key=lambda r: r['case']):
            print('%-60s paths %d (dead %d, vac %d)  obligations %d/%d  %.1fs' % (
                r['case'], r['paths'], r['dead'], r['vacuous'], sum(v[1] for v in r['obls'].values()),
                sum(v[0] for v in r['obls'].values()), r['seconds']))
            if a.v:
                for k, v in r['obls'].items():
                    print('      %s %s' % (k, v))
        for f in failed[:20]:
            print('FAILED', f['name'])
            print('   ' + f['detail'].replace('\n', '\n   '))
    print('%s: %d/%d obligations, %d failed, %.1f s' % (a.prop, d, out['obligations'], len(failed), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
