"""
Concrete execution of harnesses on the unmodified code with the interpreter hypertag is used with (PyPy).

  replay.py --serve CHECKMODULE     requests on stdin (JSON lines), answers on stdout; every request runs in a forked child
  replay.py FILE                    replay one stored counterexample: exit 1 and a message if it reproduces, 0 otherwise
"""
import sys, os, json, traceback, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def setup():
    import warnings
    warnings.simplefilter('ignore')
    repo = os.environ.get('HYPERTAG_REPO', '/repo')
    sys.path[:0] = [os.path.join(repo, 'src'), HERE]


def execute(h, params, inputs, partial=False):
    from engine import api
    S = api.ConcreteS(inputs, partial)
    try:
        h.fn(S, **params)
    except api.Failed as ex:
        return {'status': 'violation', 'label': ex.label, 'detail': str(ex.detail)[:2000], 'observed': S.observed}
    except api.Skip:
        return {'status': 'infeasible', 'observed': S.observed}
    except Exception as ex:
        return {'status': 'violation', 'label': 'uncaught ' + type(ex).__name__, 'detail': traceback.format_exc()[-2500:], 'observed': S.observed}
    return {'status': 'ok', 'observed': S.observed, 'reached': S.reached}


LIMIT = 40        # seconds

def child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(LIMIT)
            out = fn()
            data = json.dumps(out).encode()
            off = 0
            while off < len(data): off += os.write(w, data[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 1 << 20)
        if not b: break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data and os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        return {'status': 'violation', 'label': 'no result', 'detail': 'no result after %d s' % LIMIT, 'observed': []}
    if not data: return {'status': 'died', 'detail': 'replay process died', 'observed': []}
    return json.loads(data.decode())


def run_probe(f):
    try:
        r = f()
        return {'status': 'ok', 'result': r}
    except Exception:
        return {'status': 'ok', 'result': 'raised ' + traceback.format_exc()[-500:]}


def main():
    setup()
    from engine import api
    import importlib
    if sys.argv[1] == '--serve':
        importlib.import_module('checks.' + sys.argv[2])
        out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
        os.dup2(2, 1)
        out.write('ready\n'); out.flush()
        for line in sys.stdin:
            req = json.loads(line)
            if 'probe' in req: ans = child(lambda: run_probe(api.PROBES[req['probe']]))
            else:
                h = api.HARNESSES[req['harness']]
                ans = child(lambda: execute(h, req['params'], req['inputs'], req.get('partial', False)))
            out.write(json.dumps(ans) + '\n'); out.flush()
    else:
        with open(sys.argv[1], encoding='utf-8') as f: req = json.load(f)
        importlib.import_module('checks.' + req['module'])
        h = api.HARNESSES[req['harness']]
        ans = execute(h, req['params'], req['inputs'], req.get('partial', False))
        print(json.dumps(ans, indent=1, ensure_ascii=True))
        if ans['status'] == 'violation':
            print('reproduced: property=%s %s' % (req['property'], ans['label']))
            sys.exit(1)
        print('not reproduced')


if __name__ == '__main__': main()
