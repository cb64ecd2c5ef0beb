#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--case NAME]: decide one property by symbolic execution of /repo."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

REPO = os.environ.get('SYMBIT_REPO', '/repo')
PY = '/opt/venv/bin/python'


def replay(jobs, timeout=300):
    """Run jobs on the real code in a fresh interpreter; returns list of results (None on crash)."""
    if not jobs:
        return []
    fd, path = tempfile.mkstemp(suffix='.json')
    with os.fdopen(fd, 'w') as f:
        json.dump(jobs, f)
    env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1')
    try:
        with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
            p = subprocess.run([PY, '-m', 'symbit.concrete', path], cwd=VERIF, env=env, stdout=fo, stderr=fe,
                               timeout=timeout)
            fo.seek(0), fe.seek(0)
            out, err = fo.read().decode('utf8', 'replace'), fe.read().decode('utf8', 'replace')
        if '@@RESULT@@' not in out:
            if len(jobs) == 1:
                return [{'status': 'crash', 'failed': [], 'checked': 0, 'missing': [], 'obs': [],
                         'stderr': err[-1500:]}]
            return [replay([j], timeout)[0] for j in jobs]
        return json.loads(out.split('@@RESULT@@')[-1])
    except subprocess.TimeoutExpired:
        return [{'status': 'timeout', 'failed': [], 'checked': 0, 'missing': [], 'obs': []} for _ in jobs]
    finally:
        os.unlink(path)


def work(args):
    modname, casename, tier, seed, deadline = args
    import z3
    from symbit import instrument, explore
    instrument.install()
    try:
        mod = importlib.import_module('props.' + modname)
        case = {c.name: c for c in mod.cases(tier)}[casename]
        stop = deadline if not case.budget else min(deadline, time.perf_counter() + case.budget)
        return explore.explore(case, seed, stop, case.witnesses)
    except BaseException as e:
        return {'case': casename, 'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-3000:],
                'candidates': [], 'witnesses': [], 'errors': [], 'complete': False}


def child(conn, args):
    try:
        conn.send(work(args))
    except BaseException as e:
        conn.send({'case': args[1], 'error': '%s: %s' % (type(e).__name__, e), 'candidates': [], 'witnesses': [],
                   'errors': [], 'complete': False})
    conn.close()
    os._exit(0)


class Runner:
    """one process per case, at most n at a time; yields results as they come, forks from the main thread only"""

    def __init__(self, ctx, n, todo, limit):
        self.ctx, self.n, self.todo, self.limit, self.live = ctx, n, list(todo), limit, {}

    def fill(self):
        while self.todo and len(self.live) < self.n and time.perf_counter() < self.limit:
            args = self.todo.pop(0)
            r, w = self.ctx.Pipe(False)
            p = self.ctx.Process(target=child, args=(w, args), daemon=True)
            p.start()
            w.close()
            self.live[r] = (p, args)

    def __iter__(self):
        from multiprocessing.connection import wait
        while True:
            self.fill()
            if not self.live:
                return
            ready = wait(list(self.live), timeout=max(0.05, self.limit - time.perf_counter()))
            if not ready:
                return
            for r in ready:
                p, args = self.live.pop(r)
                try:
                    res = r.recv()
                except (EOFError, OSError):
                    res = {'case': args[1], 'error': 'the exploring process died (memory?)', 'candidates': [],
                           'witnesses': [], 'errors': [], 'complete': False}
                r.close()
                p.join(5)
                self.fill()
                yield res

    def stop(self):
        for p, _ in self.live.values():
            p.kill()
        for p, _ in self.live.values():
            p.join(5)


def load_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {'known': [], 'fixed': []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop at the first violation')
    ap.add_argument('--budget', type=float, default=None)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    total = a.budget or (540 if tier == 'quick' else 5400)
    modname = a.pid.lower()
    listing = subprocess.run([PY, '-c', LIST, modname, tier], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1'))
    if listing.returncode:
        print(listing.stderr.decode()[-3000:])
        sys.exit(2)
    info = json.loads(listing.stdout.decode().strip().splitlines()[-1])
    cases = info['cases']
    if a.case:
        cases = [c for c in cases if a.case in c['name']]
    order = sorted(cases, key=lambda c: -c['weight'])
    results = []
    ctx = mp.get_context('fork')
    deadline = time.perf_counter() + total
    known = [k for k in load_findings().get('known', []) if k['property'] == a.pid]
    job = lambda case, c: {'module': modname, 'case': case, 'tier': tier, 'values': c['values'],
                           'choices': c['choices']}
    violations, known_hit, spurious, errors, mismatch = [], {}, [], [], []

    def find_known(case, values, labels):
        for k in known:
            if k['case'] == case and set(labels) <= set(k['labels']) and match_inputs(k.get('inputs'), values):
                return k
        return None

    done = set()
    stopped = False
    searched = [0]
    pool = Runner(ctx, a.jobs, [(modname, c['name'], tier, seed, deadline) for c in order], deadline + 45)
    try:
        for res in pool:
            results.append(res)
            done.add(res['case'])
            if a.verbose:
                k = {x: res.get(x) for x in ('case', 'paths', 'infeasible', 'queries', 'solver_s', 'obligations',
                                             'discharged', 'complete', 'cut', 'degraded', 'errors', 'error', 'tb',
                                             'unknown_labels', 'wall_s', 'restarts') if res.get(x)}
                print(k, flush=True)
                for cd in res['candidates'][:4]:
                    print('   CAND', cd['label'], cd.get('detail', ''), str(cd['values'])[:400], cd['choices'], flush=True)
            # counterexamples are replayed on the real code at once
            fresh = False
            for c, rr in zip(res['candidates'], replay([job(res['case'], c) for c in res['candidates']])):
                if rr['failed']:
                    violations.append((res['case'], c, rr))
                    if find_known(res['case'], c['values'], [x[0] for x in rr['failed']]) is None:
                        fresh = True
                elif rr['status'] in ('crash', 'timeout'):
                    errors.append('replay %s in case %s: %s' % (rr['status'], res['case'], rr.get('stderr', '')))
                else:
                    spurious.append((res['case'], c, rr))
            # a counterexample that hinges on the value of a hash function: look for inputs that give such a value
            lost = [(cs, c) for cs, c, _ in spurious if cs == res['case']]
            if res.get('unknown_labels') and not lost:
                lost = [(res['case'], w) for w in res['witnesses'] if w.get('abandoned')]
            if lost and not fresh and searched[0] < 4 and time.perf_counter() < deadline:
                searched[0] += 1
                for c, rr in zip(lost, replay([dict(job(cs, c), search=8, seed=seed) for cs, c in lost[:2]])):
                    if rr['failed']:
                        fresh = True
                        violations.append((res['case'], dict(c[1], values=rr['values']), rr))
                        break
            if fresh and not a.all:
                stopped = True
                break
    finally:
        pool.stop()
    for c in order:
        if c['name'] not in done:
            why = 'not explored: stopped at the first confirmed violation' if stopped else 'wall-clock limit'
            results.append({'case': c['name'], 'error': why, 'candidates': [], 'witnesses': [], 'errors': [],
                            'complete': False, 'cut': why, 'timeout': True})

    # witnesses: the same harness on the real code must pass where the solver said it holds
    wj = [(r['case'], w) for r in results for w in r['witnesses']]
    wres = replay([job(case, w) for case, w in wj])
    wok = 0
    for (case, w), rr in zip(wj, wres):
        if rr['failed']:
            violations.append((case, w, rr))
        elif rr['status'] == 'done':
            wok += 1
            for (n, ev), (n2, cv) in zip(w.get('obs', []), rr['obs']):
                if n != n2 or ev != cv:
                    mismatch.append((case, 'encoding mismatch in %s: %s symbolic %s concrete %s' % (case, n, ev, cv)))
        elif rr['status'] in ('crash', 'timeout'):
            errors.append('witness replay %s in case %s: %s' % (rr['status'], case, rr.get('stderr', '')[-400:]))
    for r in results:
        if r.get('error') and not r.get('timeout'):
            errors.append('case %s: %s' % (r['case'], r['error']))
        for e in r.get('errors', []):
            errors.append('case %s: %s' % (r['case'], e))
        if r.get('complete') and not r.get('obligations'):
            errors.append('case %s: vacuous (no obligation reached)' % r['case'])
        want = next((c['must'] for c in cases if c['name'] == r['case']), [])
        miss = [m for m in want if m not in r.get('reach', [])]
        if miss and r.get('complete') and not r['candidates']:
            errors.append('case %s: never reached %s' % (r['case'], miss))

    decided = [r for r in results if r.get('discharged') and not r.get('error')]
    new_v = []
    for case, c, rr in violations:
        labels = [f[0] for f in rr['failed']]
        hit = find_known(case, c['values'], labels)
        if hit is not None:
            known_hit[hit['what']] = hit
        else:
            new_v.append((case, c, rr))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev_path = os.path.join(VERIF, 'evidence', a.pid + '.json')
    if not a.case:
        for f in os.listdir(os.path.join(VERIF, 'evidence')):
            if f.startswith('replay_%s_' % a.pid):
                os.unlink(os.path.join(VERIF, 'evidence', f))
    replays = []
    seen = set()
    for case, c, rr in new_v:
        key = (case, tuple(sorted(f[0] for f in rr['failed'])))
        if key in seen and len(replays) >= 1:
            continue
        seen.add(key)
        path = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (a.pid, len(replays)))
        with open(path, 'w') as f:
            json.dump({'jobs': [job(case, c)], 'failed': rr['failed'], 'traceback': rr.get('traceback')}, f, indent=1)
        replays.append((path, case, rr))
    complete = all(r.get('complete') for r in results) and not errors and not spurious and not mismatch
    tot = lambda k: sum(r.get(k) or 0 for r in results)
    funcs = sorted({f for r in results for f in r.get('functions', []) if f.startswith('bit')})
    degraded = sorted({'%s: %s' % (r['case'], d) for r in results for d in r.get('degraded', [])})
    evidence = {
        'property': a.pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2),
        'violations': len(new_v),
        'coverage': {
            'technique': 'symbolic execution of the source in %s, every path condition and obligation decided by z3' % REPO,
            'functions_encoded': funcs, 'cases': len(results), 'paths': tot('paths'),
            'infeasible_paths': tot('infeasible'), 'branches': tot('branches'), 'queries': tot('queries'),
            'solver_s': round(tot('solver_s'), 2), 'obligations': tot('obligations'), 'discharged': tot('discharged'),
            'discharged_without_solver': tot('syntactic'), 'solver_unknown': tot('unknown'),
            'exhaustive_within_bounds': bool(complete),
            'cut': {r['case']: r.get('cut') or r.get('error') for r in results if r.get('cut') or r.get('error')},
            'concretised': degraded[:40], 'witness_paths_replayed_ok': wok, 'witness_paths': len(wj),
            'bounds': {c['name']: c['bounds'] for c in cases},
            'assumptions': info.get('assumptions', []),
            'per_case': [{k: r.get(k) for k in ('case', 'paths', 'queries', 'solver_s', 'obligations', 'discharged',
                                                 'complete', 'wall_s')} for r in results],
        },
    }
    if errors or mismatch:
        evidence['coverage']['errors'] = ([m for _, m in mismatch] + errors)[:40]
    if spurious:
        evidence['coverage']['unreproduced'] = [{'case': s[0], 'label': s[1]['label'], 'detail': s[1].get('detail'),
                                                 'values': s[1]['values'], 'replay': s[2]['status']} for s in spurious[:10]]
    if known_hit:
        evidence['coverage']['known_findings'] = sorted(known_hit)
    if not a.case:
        with open(ev_path, 'w') as f:
            json.dump(evidence, f, indent=1)
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k))
    print('%s %s: cases=%d paths=%d queries=%d solver=%.1fs obligations=%d discharged=%d complete=%s wall=%.1fs witnesses=%d/%d'
          % (a.pid, tier, len(results), tot('paths'), tot('queries'), tot('solver_s'), tot('obligations'),
             tot('discharged'), complete, time.time() - t0, wok, len(wj)))
    if a.verbose:
        for d in degraded:
            print('  degraded', d)
        for s in spurious:
            print('  SPURIOUS', s[0], s[1]['label'], s[1].get('detail'), str(s[1]['values'])[:600], s[2]['status'], s[2]['missing'])
    for path, case, rr in replays:
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
        print('   case=%s failed=%s' % (case, rr['failed'][:3]))
        if a.verbose and rr.get('traceback'):
            print(rr['traceback'])
    for _, e in mismatch[:20]:
        print('ERROR', e)
    for e in errors[:20]:
        print('INCONCLUSIVE', e)
    for s in spurious[:5]:
        print('INCONCLUSIVE', s[0], 'counterexample for', s[1]['label'], 'does not replay', s[1].get('detail', ''))
    if replays:
        sys.exit(1)
    # no verdict at all: nothing could be decided, or the encoding disagrees with the real code wherever it was compared
    bad = {m[0] for m in mismatch}
    if not [r for r in decided if r['case'] not in bad]:
        sys.exit(2)
    sys.exit(0)


def match_inputs(want, values):
    if not want:
        return True
    for k, v in want.items():
        if values.get(k) != v:
            return False
    return True


LIST = '''
import sys, json, importlib
sys.dont_write_bytecode = True
m = importlib.import_module('props.' + sys.argv[1])
cs = m.cases(sys.argv[2])
print(json.dumps({'cases': [{'name': c.name, 'bounds': c.bounds, 'must': list(c.must), 'weight': c.weight} for c in cs],
                  'assumptions': getattr(m, 'ASSUMPTIONS', [])}))
'''

if __name__ == '__main__':
    main()
