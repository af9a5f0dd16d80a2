"""Explores one harness case symbolically; prints a JSON result."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


class Native:
    def __init__(self):
        self.p = None

    def run(self, harness, case, inputs, timeout=20):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'symex', 'native.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True)
        try:
            self.p.stdin.write(json.dumps({'harness': harness, 'case': case, 'inputs': inputs, 'timeout': timeout}) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise OSError('native worker died')
            return json.loads(line)
        except (OSError, ValueError) as e:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p = None
            return {'status': 'error', 'msg': repr(e), 'labels': []}

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()


def run_case(harness, case, tier, deadline_s):
    from symex import core, loader, shims
    from symex.ctx import SymCtx, model_inputs
    t0 = time.time()
    res = {'case': case, 'harness': harness}
    loader.install({'dfir_ntfs': REPO, 'harness': VERIF})
    native = Native()
    try:
        mod = importlib.import_module('harness.' + harness)
    except BaseException as e:
        res.update(status='load-error', error=traceback.format_exc()[-2000:], wall=time.time() - t0)
        return res
    c = [c for c in mod.CASES if c['name'] == case][0]
    fn = c['fn']
    cfg = c.get('cfg', {})
    opts = dict(c.get('opts', {}))
    if tier == 'thorough':
        opts.update(c.get('thorough', {}))
    eng = core.Engine(query_timeout_ms=opts.get('query_ms', 20000), max_paths=opts.get('max_paths', 20000), max_decisions=opts.get('max_decisions', 4000), deadline=time.time() + deadline_s)
    validate_n = opts.get('validate', 30)
    st = eng.stats
    found = []
    spurious = []
    samples = []
    state = {'native_done': 0}

    def confirm(msg, model, why):
        inp = model_inputs(eng, model)
        r = native.run(harness, case, inp)
        if r['status'] in ('violation', 'exception') or (r['status'] == 'timeout'):
            found.append({'msg': msg, 'native': r, 'inputs': inp, 'how': why})
            return True, r, inp
        return False, r, inp

    def on_cex(e, msg, model, neg):
        ok, r, inp = confirm(msg, model, 'solver counterexample')
        if ok:
            raise core.StopExploration()
        spurious.append({'msg': msg, 'native': r, 'inputs': inp if len(str(inp)) < 4000 else '...'})
        if len(spurious) > 5:
            raise core.StopExploration()

    eng.on_cex = on_cex

    def body():
        fn(SymCtx(eng), **cfg)

    def on_path(e, status, exc):
        st.outcomes[status + ':' + ','.join(e.labels)] = st.outcomes.get(status + ':' + ','.join(e.labels), 0) + 1
        if status == 'ok':
            if state['native_done'] < validate_n:
                state['native_done'] += 1
                try:
                    m = e.ensure_model()
                except core.SymAbort:
                    return
                inp = model_inputs(e, m)
                r = native.run(harness, case, inp)
                if r['status'] == 'ok' and r['labels'] == e.labels:
                    st.validated += 1
                    if len(samples) < 2:
                        samples.append({'labels': e.labels, 'inputs': str(inp)[:600]})
                elif r['status'] in ('violation', 'exception', 'timeout'):
                    found.append({'msg': 'native run of a path the encoding accepted', 'native': r, 'inputs': inp, 'how': 'path replay'})
                    raise core.StopExploration()
                else:
                    st.validation_mismatch.append({'sym': e.labels, 'native': r, 'inputs': str(inp)[:600]})
            return
        if status == 'exception':
            try:
                m = e.ensure_model()
            except core.SymAbort:
                return
            msg = 'uncaught %s: %s' % (type(exc).__name__, exc)
            ok, r, inp = confirm(msg, m, 'uncaught exception on a feasible path')
            if ok:
                raise core.StopExploration()
            st.unsupported += 1
            k = 'unreproduced %s' % msg[:150]
            st.unsupported_reasons[k] = st.unsupported_reasons.get(k, 0) + 1
            tb = ''.join(traceback.format_exception(exc))[-1200:]
            res.setdefault('unreproduced_exceptions', []).append({'msg': msg, 'trace': tb, 'native': r['status']})
            return
        # truncated / unsupported: the model of the path condition so far is run on the real code
        if state['native_done'] < validate_n + 40 or status == 'stuck':
            state['native_done'] += 1
            try:
                m = e.model if status == 'stuck' else e.ensure_model()
            except core.SymAbort:
                return
            inp = model_inputs(e, m)
            r = native.run(harness, case, inp)
            if r['status'] in ('violation', 'exception', 'timeout'):
                found.append({'msg': '%s path' % status, 'native': r, 'inputs': inp, 'how': status + ' path, native replay'})
                raise core.StopExploration()

    def late(*a):
        raise core.PathTime()

    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, deadline_s + 5)
    try:
        eng.run(body, on_path)
    except core.PathTime:
        st.timeout = True
    except core.StopExploration:
        pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    native.close()
    res.update(status='done', wall=time.time() - t0, paths=st.paths, decisions=st.decisions, queries=st.queries, solver_time=st.solver_time, unknown=st.unknown, truncated=st.truncated,
               unsupported=st.unsupported, reasons=st.unsupported_reasons, checks=st.checks, checks_trivial=st.checks_trivial, checks_solver=st.checks_solver, inconclusive=st.checks_inconclusive,
               outcomes=st.outcomes, validated=st.validated, mismatch=st.validation_mismatch, timeout=st.timeout, found=found, spurious=spurious, samples=samples,
               functions=sorted(shims.ENTERED), bounds=c.get('bounds', ''))
    return res


if __name__ == '__main__':
    harness, case, tier, dl, out = sys.argv[1:6]
    try:
        r = run_case(harness, case, tier, float(dl))
    except BaseException:
        r = {'case': case, 'harness': harness, 'status': 'engine-error', 'error': traceback.format_exc()[-3000:]}
    with open(out, 'w') as f:
        json.dump(r, f)
