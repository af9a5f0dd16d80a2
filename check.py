#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--case NAME]: decides one property; exit 0 held, 1 violated (VIOLATION line)."""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('known', [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.property
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hname = pid.lower()
    mod = importlib.import_module('harness.' + hname)
    cases = [c for c in mod.CASES if (tier == 'thorough' or c.get('tier', 'quick') == 'quick')]
    if a.case:
        cases = [c for c in mod.CASES if c['name'] == a.case]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 3600)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    pending = list(enumerate(cases))
    running = {}
    again = set()
    results = [None] * len(cases)
    stop = False
    while pending or running:
        while pending and len(running) < a.jobs and not stop:
            i, c = pending.pop(0)
            o = dict(c.get('opts', {}))
            if tier == 'thorough':
                o.update(c.get('thorough', {}))
            dl = o.get('deadline', 150 if tier == 'quick' else 1500)
            dl = min(dl, max(5, budget - (time.time() - t0)))
            out = os.path.join(tmp, '%d.json' % i)
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'symex', 'runcase.py'), hname, c['name'], tier, str(dl), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED='0', **({'SYMEX_NORACE': '1'} if i in again else {})))
            running[i] = (p, out, time.time(), dl)
        for i, (p, out, ts, dl) in list(running.items()):
            if p.poll() is None:
                if time.time() - ts > dl + 120:
                    p.kill()
                else:
                    continue
            err = p.stderr.read().decode(errors='replace') if p.stderr else ''
            try:
                results[i] = json.load(open(out))
            except (OSError, ValueError):
                if p.returncode in (-6, -11) and i not in again and not stop:  # the solver crashed: once more
                    again.add(i)
                    pending.append((i, cases[i]))
                    del running[i]
                    continue
                results[i] = {'case': cases[i]['name'], 'status': 'engine-error', 'error': 'no result (exit %s) %s' % (p.returncode, err[-500:])}
            del running[i]
            if results[i].get('found'):
                stop = True
                pending = []
                for q, _, _, _ in running.values():
                    q.kill()
        if running:
            time.sleep(0.02)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    results = [r for r in results if r is not None]
    done = [r for r in results if r.get('status') == 'done']
    failed = [r for r in results if r.get('status') != 'done']

    violations = []
    for r in done:
        for f in r['found']:
            violations.append((r, f))
    spurious = [(r['case'], s) for r in done for s in r['spurious']]
    mismatch = [(r['case'], s) for r in done for s in r['mismatch']]
    incomplete = [r['case'] for r in done if r['timeout'] or r['truncated'] or r['unsupported'] or r['inconclusive']] + [r['case'] for r in failed]

    def tot(k):
        return sum(r.get(k, 0) for r in done)
    vac = []
    for r in done:
        c = [c for c in cases if c['name'] == r['case']][0]
        seen = set()
        for o in r['outcomes']:
            st, _, l = o.partition(':')
            if st == 'ok':
                seen.update(l.split(','))
        for lab in c.get('expect', []):
            if lab not in seen:
                vac.append('%s: %s' % (r['case'], lab))
    functions = sorted({f for r in done for f in r['functions'] if not f.startswith('harness.')})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('decisions'), 'traces_validated_against_impl': tot('validated'),
            'samples': [s for r in done for s in r['samples']][:6] or ['none'],
            'assertions_discharged': tot('checks'), 'assertions_by_simplification': tot('checks_trivial'), 'assertions_by_solver': tot('checks_solver'), 'assertions_inconclusive': tot('inconclusive'),
            'solver_queries': tot('queries'), 'solver_time_s': round(tot('solver_time'), 2), 'solver_unknown': tot('unknown'),
            'paths_truncated': tot('truncated'), 'paths_unsupported': tot('unsupported'),
            'exhaustive': not incomplete and not failed,
            'functions_encoded': functions,
            'bounds': {c['name']: c.get('bounds', '') for c in cases},
            'cases': [{k: r.get(k) for k in ('case', 'paths', 'decisions', 'queries', 'checks', 'checks_solver', 'validated', 'truncated', 'unsupported', 'inconclusive', 'timeout', 'outcomes', 'reasons')} | {'wall_s': round(r.get('wall', 0), 2)} for r in done],
            'incomplete_cases': incomplete, 'engine_errors': [{'case': r.get('case'), 'error': r.get('error', '')[-600:]} for r in failed],
            'vacuity_missing': vac, 'unreproduced_counterexamples': [{'case': c, 'msg': s['msg']} for c, s in spurious],
            'encoding_mismatches': len(mismatch),
            'repo_source_sha1': {f: hashlib.sha1(open(os.path.join(REPO, f), 'rb').read()).hexdigest() for f in getattr(mod, 'FILES', []) if os.path.exists(os.path.join(REPO, f))},
            'explanation': 'states = feasible symbolic paths completed; transitions = two-way branch decisions put to the solver; traces_validated = path models re-run on the unpatched code with the same outcome',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s %s: %d cases, %d paths, %d decisions, %d queries (%.1f s solver), %d assertions, %d path models re-run on the real code, %.1f s' % (pid, tier, len(done), tot('paths'), tot('decisions'), tot('queries'), tot('solver_time'), tot('checks'), tot('validated'), time.time() - t0))
    if a.v:
        for r in done:
            print('  %-28s paths=%d dec=%d q=%d chk=%d/%d val=%d trunc=%d unsup=%d inc=%d to=%s wall=%.1f' % (r['case'], r['paths'], r['decisions'], r['queries'], r['checks'], r['checks_solver'], r['validated'], r['truncated'], r['unsupported'], r['inconclusive'], r['timeout'], r['wall']))
            print('     ', dict(sorted(r['outcomes'].items(), key=lambda x: -x[1])[:12]))
            if r['reasons']:
                print('     reasons', r['reasons'])
            for u in r.get('unreproduced_exceptions', [])[:3]:
                print('     unreproduced', u['msg'], u['trace'])
    for r in failed:
        print('INCONCLUSIVE case %s: %s' % (r.get('case'), (r.get('error') or r.get('status') or '')[-1500 if a.v else -300:]))
    for c in incomplete:
        print('INCOMPLETE case %s' % c)
    for v in vac:
        print('NOT-REACHED %s' % v)
    for c, s in mismatch[:5]:
        print('MISMATCH case %s: %s' % (c, json.dumps(s)[:600]))
    for k in {json.dumps(k) for r in done for k in r.get('known', [])}:
        print('KNOWN-FINDING: property=%s %s' % (pid, json.loads(k)))
    if violations:
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        for n, (r, f) in enumerate(violations):
            path = os.path.join(rd, '%s-%s-%d.json' % (pid, r['case'], n))
            with open(path, 'w') as fo:
                json.dump({'property': pid, 'harness': hname, 'case': r['case'], 'msg': f['msg'], 'how': f['how'], 'native': f['native'], 'inputs': f['inputs'],
                           'replay': 'python3-vt %s/symex/native.py %s' % (VERIF, path)}, fo)
            print('  case %s: %s | native: %s %s %s' % (r['case'], f['msg'], f['native']['status'], f['native'].get('msg'), f['native'].get('where') or ''))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if spurious:
        for c, s in spurious[:5]:
            print('UNREPRODUCED counterexample in case %s: %s %s' % (c, s['msg'], json.dumps(s['native'])[:300]))
    sys.exit(0 if done else 2)


if __name__ == '__main__':
    main()
