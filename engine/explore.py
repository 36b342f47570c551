"""
Exploration of all paths of a harness.  Every path runs in a forked child of a worker process, so that no state of the code
under test leaks from one path to another; the decisions of a path (a prefix) identify it.
"""
import os, sys, time, pickle, signal, select, traceback, gc, json, struct
import z3
from . import core, rt, instr, sregex, strops, api
from .core import (Path, PathEnd, Infeasible, Violation, EngineError, SymInt, SymBool, TOK_LO, TOK_HI, b_expr, has_tok)

PATH_TIMEOUT = 60
CACHES = (sregex._set_cache, strops._pred_sets, strops._case_groups)       # character classes: pure functions of their key


def model_value(v, m, p):
    """Value of v (with tokens and terms) under model m, normalised like api.norm."""
    if isinstance(v, str):
        if v.isascii() or not has_tok(v): return str(v)
        return ''.join(chr(m.eval(p.exprs[c], model_completion=True).as_long()) if TOK_LO <= ord(c) <= TOK_HI else c for c in v)
    if isinstance(v, SymBool): return z3.is_true(m.eval(v.expr(), model_completion=True))
    if isinstance(v, SymInt): return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, (list, tuple)): return [model_value(x, m, p) for x in v]
    if isinstance(v, dict): return {'%s' % (model_value(k, m, p),): model_value(x, m, p) for k, x in v.items()}
    return api.norm(v)


class SymS(api.BaseS):
    symbolic = True

    def __init__(self, p): self.p = p

    def char(self, name, dom=api.UNI_LINE): return self.p.char(name, dom)
    def int(self, name, lo=None, hi=None): return self.p.int(name, lo, hi)
    def bool(self, name): return self.p.bool(name)
    def pick(self, name, n): return self.p.choose(name, n)

    def assume(self, cond):
        if not cond: raise Infeasible()

    def check(self, cond, label, detail=''):
        p = self.p
        p.reached += 1
        if cond is True:
            p.checks_triv += 1
            return
        if isinstance(cond, SymBool):
            e = cond.expr()
            p.checks += 1
            w = p.witness(z3.Not(e))
            if w is None: return
        elif cond:
            p.checks_triv += 1
            return
        else:
            p.checks += 1
            w = p.witness()
            if w is None: raise Infeasible()
        d = detail() if callable(detail) else detail
        raise Violation(label, w, d)

    def eq(self, got, want, label):
        p = self.p
        self.check(rt.sym_eq(got, want), label,
                   lambda: 'got %r, expected %r' % (model_value(got, p.last_model, p), model_value(want, p.last_model, p)))

    def fail(self, label, detail=''): self.check(False, label, detail)
    def observe(self, label, v): self.p.observed.append((label, v))
    def cover(self, label): self.p.covers.add(label)
    def conc(self, v): return strops.conc(v) if isinstance(v, str) else v.value() if isinstance(v, SymInt) else v


def run_path(fn, params, prefix, want_witness):
    """Execute one path; the result is a dict."""
    p = Path(prefix)
    core.set_path(p)
    instr.ENTERED.clear()
    del instr.NEW_TEXTS[:]
    sregex.used.clear()
    S = SymS(p)
    out = {'status': 'ok'}
    t0 = time.time()
    try:
        fn(S, **params)
    except Violation as v:
        out.update(status='violation', label=v.label, detail=str(v.detail)[:2000], witness=v.witness)
    except Infeasible:
        out['status'] = 'infeasible'
    except EngineError as ex:
        out.update(status='engine', detail=str(ex) + '\n' + traceback.format_exc()[-2500:])
    except Exception as ex:
        tb = traceback.format_exc()[-2500:]
        try:
            w = p.witness()
            if w is None: out['status'] = 'infeasible'
            else: out.update(status='violation', label='uncaught ' + type(ex).__name__, detail=tb, witness=w)
        except BaseException as ex2:
            out.update(status='engine', detail='%r while handling %s' % (ex2, tb))
    if out['status'] == 'engine':           # this path is not decided; some values that take it are tried on the real code
        try:
            signal.setitimer(signal.ITIMER_REAL, 20)
            w = p.witness()
            if w is None: out['status'] = 'infeasible'
            else: out['witness'] = w
        except BaseException: pass
    if len(p.trace) < len(prefix) and out['status'] not in ('engine',):
        out.update(status='engine', detail='replay diverged: path has %d decisions, prefix %d' % (len(p.trace), len(prefix)))
    if out['status'] == 'ok' and want_witness:
        try:
            w = p.witness()
            if w is None: out['status'] = 'infeasible'
            else:
                out['witness'] = w
                out['observed'] = [(l, model_value(v, p.last_model, p)) for l, v in p.observed]
        except EngineError as ex: out.update(status='engine', detail=str(ex))
    out.update(alternatives=p.alternatives, queries=p.queries, checks=p.checks, triv=p.checks_triv, reached=p.reached,
               incomplete=p.incomplete, decisions=len(p.trace), solver_s=p.solver_s, covers=sorted(p.covers), time=time.time() - t0,
               inputs=len(p.inputs))
    return out


def _alarm(*a): raise EngineError('path timeout')


class Worker(object):
    """Runs in a worker process."""

    def __init__(self, harnesses):
        self.harnesses = harnesses
        self.known_entered = set()

    def path(self, h, params, prefix, want_witness):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                cached = [set(d) for d in CACHES]
                signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, PATH_TIMEOUT)
                try: out = run_path(h.fn, params, prefix, want_witness)
                except BaseException as ex:
                    out = {'status': 'engine', 'detail': traceback.format_exc()[-2500:]}
                signal.setitimer(signal.ITIMER_REAL, 0)
                out['entered'] = [e for e in instr.ENTERED if e not in self.known_entered]
                out['texts'] = instr.NEW_TEXTS[:20]
                out['warm'] = [{k: v for k, v in d.items() if k not in old} for d, old in zip(CACHES, cached)]
                data = pickle.dumps(out, 4)
                off = 0
                while off < len(data): off += os.write(w, data[off:off + 65536])
            finally:
                os._exit(0)
        os.close(w)
        chunks = []
        while True:
            b = os.read(r, 1 << 20)
            if not b: break
            chunks.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        if not chunks: return {'status': 'engine', 'detail': 'child process died'}
        out = pickle.loads(b''.join(chunks))
        # warm the caches that are inherited by later children
        self.known_entered.update(out.get('entered', ()))
        for gid, text in out.pop('texts', ()):
            instr.preparse(gid, text)
        for d, new in zip(CACHES, out.pop('warm', ())): d.update(new)
        return out

    def task(self, hi, vi, params, prefixes, slice_s, want):
        """Depth-first from the given prefixes until the time slice is over."""
        h = self.harnesses[hi]
        stack = list(prefixes)
        t0 = time.time()
        res = []
        while stack:
            prefix = stack.pop()
            out = self.path(h, params, prefix, want > 0)
            if out['status'] == 'ok' and want > 0: want -= 1
            alts = out.pop('alternatives', [])
            stack.extend(alts)
            res.append(out)
            if time.time() - t0 > slice_s: break
        return res, stack

    def loop(self, rfd, wfd):
        while True:
            msg = recv(rfd)
            if msg is None: os._exit(0)
            res = self.task(*msg)
            send(wfd, res)


def send(fd, obj):
    data = pickle.dumps(obj, 4)
    data = struct.pack('<Q', len(data)) + data
    off = 0
    while off < len(data): off += os.write(fd, data[off:off + 65536])

def recv(fd):
    def read(n):
        out = b''
        while len(out) < n:
            b = os.read(fd, min(1 << 20, n - len(out)))
            if not b: return None
            out += b
        return out
    h = read(8)
    if h is None: return None
    return pickle.loads(read(struct.unpack('<Q', h)[0]))


class Stats(object):
    def __init__(self):
        self.paths = self.infeasible = self.queries = self.checks = self.triv = self.reached = self.incomplete = self.decisions = 0
        self.solver_s = 0.0; self.max_decisions = 0; self.max_time = 0.0; self.inputs = 0
        self.covers = {}
        self.violations = []; self.engine = []; self.witnesses = []
        self.complete = True
        self.first = None; self.last = None

    def add(self, out):
        st = out['status']
        if st == 'engine':
            self.engine.append((out['detail'], out.get('witness'))); return
        if st == 'infeasible': self.infeasible += 1
        else: self.paths += 1
        for k in ('queries', 'checks', 'triv', 'reached', 'incomplete', 'decisions'): setattr(self, k, getattr(self, k) + out[k])
        self.solver_s += out['solver_s']
        self.max_decisions = max(self.max_decisions, out['decisions']); self.max_time = max(self.max_time, out['time'])
        self.inputs = max(self.inputs, out['inputs'])
        for c in out['covers']: self.covers[c] = self.covers.get(c, 0) + 1
        if st == 'violation': self.violations.append((out['label'], out['detail'], out['witness']))
        elif st == 'ok' and 'witness' in out: self.witnesses.append((out['witness'], out['observed']))


def explore(harnesses, tier, budget, jobs=8, witnesses=6, log=None, seed=1):
    """Explore all variants; returns ({(harness index, variant index): Stats}, entered functions)."""
    units = []
    for hi, h in enumerate(harnesses):
        for vi, params in enumerate(h.variants(tier)): units.append((hi, vi, params))
    stats = {(hi, vi): Stats() for hi, vi, _ in units}
    entered = set()
    t0 = time.time()
    warm = Worker(harnesses)
    for hi, h in enumerate(harnesses):              # fill the caches that the workers inherit
        for params in h.variants(tier)[:2]:
            if time.time() - t0 < 6: entered.update(warm.path(h, params, [], False).get('entered', ()))
    gc.collect(); gc.freeze()
    workers = []
    for _ in range(jobs):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1); os.close(r2)
            for _p, a, b in workers: os.close(a); os.close(b)
            try: warm.loop(r1, w2)
            finally: os._exit(1)
        os.close(r1); os.close(w2)
        workers.append((pid, w1, r2))
    t0 = time.time()
    queue = {(hi, vi): [[]] for hi, vi, _ in units}
    wanted = {k: witnesses for k in queue}
    params = {(hi, vi): p for hi, vi, p in units}
    spent = {k: 0.0 for k in queue}
    running = {k: 0 for k in queue}
    idle = list(range(jobs)); busy = {}
    stop = False; nviol = nengine = 0; t_viol = t_timeout = None
    dead = False
    while True:
        now = time.time() - t0
        if now > budget: stop = True
        if t_viol is not None and (nviol >= 40 or now > t_viol + 6): stop = True
        if t_timeout is not None and now > t_timeout + 30 or nengine > 400: stop = True
        if not stop:
            while idle:
                cand = [k for k in queue if queue[k]]
                if not cand: break
                k = min(cand, key=lambda k: (running[k], spent[k]))
                q = queue[k]
                # hand out the shallowest prefix (largest subtree), or several when there are many
                n = 1 if len(q) < 4 * jobs else len(q) // (2 * jobs)
                q.sort(key=len, reverse=True)
                batch = q[-n:]; del q[-n:]
                w = idle.pop()
                want = 0
                if wanted[k] > 0:
                    want = 2 if wanted[k] > 2 else wanted[k]
                    wanted[k] -= want
                send(workers[w][1], (k[0], k[1], params[k], batch, 0.4 if now > 3 else 0.15, want))
                busy[workers[w][2]] = (w, k, time.time())
                running[k] += 1
        if not busy: break
        rl, _, _ = select.select(list(busy), [], [], 1.0)
        for fd in rl:
            w, k, ts = busy.pop(fd)
            res = recv(fd)
            if res is None: raise RuntimeError('worker died')
            outs, left = res
            for out in outs:
                entered.update(out.pop('entered', ()))
                stats[k].add(out)
                if stats[k].first is None: stats[k].first = now
                if out['status'] == 'violation':
                    nviol += 1
                    if t_viol is None: t_viol = time.time() - t0
                elif out['status'] == 'engine':
                    nengine += 1
                    if 'path timeout' in out['detail'] and t_timeout is None: t_timeout = time.time() - t0
            queue[k].extend(left)
            spent[k] += time.time() - ts
            running[k] -= 1
            stats[k].last = time.time() - t0
            stats[k].spent = spent[k]
            idle.append(w)
    for k in queue:
        if queue[k]: stats[k].complete = False; stats[k].left = len(queue[k])
    for pid, w1, r2 in workers:
        os.close(w1); os.close(r2)
    for pid, _, _ in workers: os.waitpid(pid, 0)
    return stats, entered
