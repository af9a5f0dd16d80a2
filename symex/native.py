"""Concrete replay of a harness on the unpatched code of /repo.

Worker mode (no arguments): JSON requests on stdin, one reply per line.
Replay mode: native.py FILE.json runs one recorded counterexample and prints what happens (exit 1 if it violates)."""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
from symex.ctx import NativeCtx, Violation, AssumeFailed


def fix(v):
    if isinstance(v, dict) and 'map' in v:
        return {'default': v.get('default', 0), 'map': {int(k): x for k, x in v['map'].items()}}
    return v


class Alarm(BaseException):
    pass


def on_alarm(*a):
    raise Alarm()


def run(harness, case, inputs, timeout=20, quiet=True):
    mod = importlib.import_module('harness.' + harness)
    c = [c for c in mod.CASES if c['name'] == case][0]
    ctx = NativeCtx({k: fix(v) for k, v in inputs.items()})
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(timeout)
    old = sys.stdout
    try:
        if quiet:
            sys.stdout = open(os.devnull, 'w')
        try:
            c['fn'](ctx, **c.get('cfg', {}))
        finally:
            if quiet:
                sys.stdout.close()
                sys.stdout = old
        r = {'status': 'ok'}
    except Violation as e:
        r = {'status': 'violation', 'msg': str(e)}
    except AssumeFailed as e:
        r = {'status': 'assume', 'msg': str(e)}
    except Alarm:
        r = {'status': 'timeout', 'msg': 'no termination within %d s' % timeout}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        r = {'status': 'exception', 'msg': 'uncaught %s: %s' % (type(e).__name__, e), 'type': type(e).__name__,
             'where': '%s:%d %s' % (os.path.basename(inrepo[-1].filename), inrepo[-1].lineno, inrepo[-1].name) if inrepo else None,
             'trace': traceback.format_exc()}
    finally:
        signal.alarm(0)
    r['labels'] = ctx.labels
    return r


def main():
    if len(sys.argv) > 1:
        d = json.load(open(sys.argv[1]))
        r = run(d['harness'], d['case'], d['inputs'], timeout=60, quiet=False)
        print(json.dumps(r, indent=1))
        sys.exit(1 if r['status'] in ('violation', 'exception', 'timeout') else 0)
    for line in sys.stdin:
        d = json.loads(line)
        try:
            r = run(d['harness'], d['case'], d['inputs'], d.get('timeout', 20))
        except BaseException as e:
            r = {'status': 'error', 'msg': repr(e), 'labels': [], 'trace': traceback.format_exc()}
        sys.__stdout__.write(json.dumps(r) + '\n')
        sys.__stdout__.flush()


if __name__ == '__main__':
    main()
