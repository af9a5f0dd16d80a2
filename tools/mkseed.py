#!/usr/bin/env python3
"""Create /verif/seeded/<id> from a spec module: validates demo on clean and patched scratch copies and runs the test-suite.
spec file (python): SEEDS = [dict(id, property, file, edits=[(old,new)...] or [(file,old,new)...], demo=<python source>, needs, breaks)]"""
import sys, os, json, subprocess, shutil, runpy, concurrent.futures, tempfile
TESTS = '--no-tests' not in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith('--')]
specs = runpy.run_path(args[0])['SEEDS']
only = set(args[1:])
DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
PRE = 'import sys, os\nsys.path.insert(0, os.getcwd())\n'
def run1(s):
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        r = os.path.join(w, 'repo'); shutil.copytree(os.environ.get('VERIF_REPO', '/repo'), r, symlinks=True)
        demo = os.path.join(w, 'demo.py'); open(demo, 'w').write(PRE + s['demo'])
        def demo_run():
            p = subprocess.run(['/opt/venv/bin/python', demo], cwd=r, capture_output=True, text=True, timeout=200)
            return p.returncode, (p.stdout + p.stderr)[-400:]
        c0, o0 = demo_run()
        if c0 != 0: return s['id'], 'DEMO FAILS ON CLEAN: ' + o0
        for e in s['edits']:
            f, a, b = e if len(e) == 3 else (s['file'],) + tuple(e)
            p = os.path.join(r, f); t = open(p, encoding='utf-8').read()
            if t.count(a) != 1: return s['id'], 'old text occurs %d times: %r' % (t.count(a), a[:60])
            open(p, 'w', encoding='utf-8').write(t.replace(a, b))
        c1, o1 = demo_run()
        if c1 == 0: return s['id'], 'DEMO PASSES WITH PATCH'
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        tst = 'tests skipped'
        if TESTS:
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-rA', '-q', '-n', '2', '-p', 'no:cacheprovider', 'test_cases.py'], cwd=r, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=r))
            passed = {l.split('::')[-1].split()[0] for l in p.stdout.splitlines() if l.startswith('PASSED')}
            stable = {x.split('::')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']}
            if stable - passed: return s['id'], 'TESTS FAIL: ' + str(sorted(stable - passed))[:300]
            tst = 'tests ok'
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.py', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        return s['id'], 'ok; ' + tst + ' | demo: ' + (o1.strip().splitlines() or ['killed'])[-1][:100]
    finally:
        shutil.rmtree(w)
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(run1, [s for s in specs if not only or s['id'] in only]):
        print(i, m)
