#!/opt/veriftools/pyvenv/bin/python
"""
Decide one property:  check.py C01 [--tier quick|thorough] [--only HARNESS] [--budget SECONDS]

Exit 0: no violation on everything explored; exit 1 with a VIOLATION line: a counterexample was found and reproduced on the
real code; exit 2: the machinery itself failed (a harness reaches no assertion, nothing could be decided).

Paths the engine cannot decide (unsupported construct, solver or path timeout, a counterexample or path model that the real code
does not confirm) are printed as UNDECIDED and counted in the evidence; with --strict they make the exit status 2.
"""
import sys, os, json, time, argparse, subprocess, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HYPERTAG_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
os.environ['PYTHONUTF8'] = '1'; os.environ['PYTHONDONTWRITEBYTECODE'] = '1'


class Replayer(object):
    def __init__(self, module):
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, 'engine', 'replay.py'), '--serve', module], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get('REPLAY_ERR') else None, cwd=HERE)
        self.ready = False
    def ask(self, req):
        if not self.ready:
            l = self.p.stdout.readline()
            if l.strip() != b'ready': raise RuntimeError('replay server did not start')
            self.ready = True
        self.p.stdin.write((json.dumps(req) + '\n').encode()); self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l: raise RuntimeError('replay server died')
        return json.loads(l.decode())
    def close(self):
        try: self.p.stdin.close()
        except OSError: pass
        self.p.wait()


def ask_all(reps, reqs):
    """Answers to all requests, spread over the servers."""
    out = [None] * len(reqs)
    it = iter(range(len(reqs))); lock = threading.Lock()
    def work(r):
        while True:
            with lock: i = next(it, None)
            if i is None: return
            try: out[i] = r.ask(reqs[i])
            except Exception as ex: out[i] = {'status': 'died', 'detail': repr(ex), 'observed': []}
    ts = [threading.Thread(target=work, args=(r,)) for r in reps]
    for t in ts: t.start()
    for t in ts: t.join()
    return out


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for l in f:
                l = l.strip()
                if l.startswith('{'):
                    d = json.loads(l)
                    if d['property'] == prop: out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--budget', type=float); ap.add_argument('-v', action='store_true')
    ap.add_argument('--variant', type=int); ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--strict', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop, tier = a.prop, a.tier
    module = prop.lower()
    budget = a.budget or (150 if tier == 'quick' else 620)
    os.chdir(HERE)

    reps = [Replayer(module)]           # starts up while the exploration runs
    sys.path.insert(0, HERE)
    from engine import instr, api, explore
    instr.install(os.path.join(REPO, 'src'), HERE)
    import importlib
    problems, undecided = [], []
    try:
        mod = importlib.import_module('checks.' + module)
    except Exception as ex:
        # the code under test cannot even be imported: report if that is also so for the real interpreter
        import traceback; traceback.print_exc()
        rc = subprocess.run([PYPY, '-c', 'import sys; sys.dont_write_bytecode=True; sys.path[:0]=[%r,%r]; import checks.%s' % (REPO + '/src', HERE, module)]).returncode
        if rc: print('VIOLATION property=%s replay=import' % prop); sys.exit(1)
        sys.exit(2)
    hs = [h for h in api.HARNESSES.values() if h.fn.__module__ == 'checks.' + module]
    if a.only: hs = [h for h in hs if h.name in a.only.split(',')]
    hs = [h for h in hs if h.variants(tier)]
    if a.variant is not None:
        for h in hs: h.quick, h.thorough = [h.variants(tier)[a.variant]], []
    t1 = time.time()
    if hasattr(mod, 'setup'): mod.setup()
    stats, entered = explore.explore(hs, tier, budget, jobs=a.jobs, witnesses=3 if tier == 'quick' else 8)
    t2 = time.time()

    # ---- counterexamples and path models on the real code
    viol, val, und = [], [], []
    for (hi, vi), st in sorted(stats.items()):
        h = hs[hi]; params = h.variants(tier)[vi]
        for label, detail, w in st.violations[:6]:
            viol.append(dict(harness=h.name, params=params, inputs=w, label=label, sym_detail=detail))
        for w, obs in st.witnesses:
            val.append(dict(harness=h.name, params=params, inputs=w, observed=obs))
        for d, w in st.engine[:3]:
            undecided.append('%s %s: %s' % (h.name, json.dumps(params), d))
            if w is not None: und.append(dict(harness=h.name, params=params, inputs=w, partial=True, label='undecided'))
    cap = 60 if tier == 'quick' else 240
    if len(val) > cap:
        import random
        random.Random(seed).shuffle(val); val = val[:cap]
    und.sort(key=lambda v: v['harness']); und = und[:24]
    reqs = [dict(harness=v['harness'], params=v['params'], inputs=v['inputs'], partial=v.get('partial', False)) for v in viol[:24] + val + und]
    kf = known_findings(prop)
    active = [k for k in kf if k.get('status') == 'known']
    while len(reps) < min(6, 1 + (len(reqs) + len(active)) // 8): reps.append(Replayer(module))
    answers = ask_all(reps, reqs + [dict(probe=k['id']) for k in active])
    nv = len(viol[:24])
    reproduced, spurious, mism = [], [], []
    for v, ans in zip(viol[:24], answers[:nv]):
        if ans['status'] == 'violation':
            v['real'] = ans; reproduced.append(v)
        else: spurious.append((v, ans))
    validated = 0
    for v, ans in zip(val, answers[nv:nv + len(val)]):
        obs = json.loads(json.dumps(v['observed']))
        if ans['status'] == 'ok' and json.loads(json.dumps(ans['observed'])) == obs: validated += 1
        elif ans['status'] == 'violation':
            # the real code violates the property on a path the engine considers fine: a genuine counterexample all the same
            v['label'] = ans['label']; v['real'] = ans; reproduced.append(v)
        else: mism.append((v, ans))
    for v, ans in zip(und, answers[nv + len(val):]):
        if ans['status'] == 'violation':
            v['label'] = ans['label']; v['real'] = ans; reproduced.append(v)
    for k, ans in zip(active, answers[nv + len(val) + len(und):]):
        if ans.get('result'): print('KNOWN-FINDING: property=%s %s: %s' % (prop, k['id'], k['what']))
        else: print('note: known finding %s no longer reproduces' % k['id'])
    for r in reps: r.close()

    for v, ans in spurious[:5]:
        undecided.append('counterexample does not reproduce on the real code: %s %s %r inputs=%s\n  symbolic: %s\n  real: %s' % (
            v['harness'], json.dumps(v['params']), v['label'], json.dumps(v['inputs']), v['sym_detail'], json.dumps(ans)[:1500]))
    for v, ans in mism[:5]:
        undecided.append('path model behaves differently on the real code: %s %s inputs=%s\n  symbolic: %s\n  real: %s' % (
            v['harness'], json.dumps(v['params']), json.dumps(v['inputs']), json.dumps(v['observed'])[:1500], json.dumps(ans)[:1500]))
    for hi, h in enumerate(hs):
        sts = [s for (i, _), s in stats.items() if i == hi]
        if not any(s.reached or s.violations for s in sts) and all(s.complete for s in sts):
            (undecided if any(s.engine for s in sts) else problems).append('vacuous: harness %s reaches no assertion' % h.name)
    if not any(s.reached or s.violations for s in stats.values()): problems.append('no assertion was reached')

    # ---- evidence
    tot = lambda f: sum(getattr(s, f) for s in stats.values())
    per = []
    for (hi, vi), st in sorted(stats.items()):
        per.append(dict(harness=hs[hi].name, variant=hs[hi].variants(tier)[vi], bounds=hs[hi].bounds, outside=hs[hi].outside, paths=st.paths,
                        infeasible=st.infeasible, exhausted=st.complete, pending_prefixes=getattr(st, 'left', 0), assertions=st.reached,
                        assertion_queries=st.checks, discharged_syntactically=st.triv, branch_queries=st.queries, concretisation_cuts=st.incomplete,
                        symbolic_inputs=st.inputs, max_decisions=st.max_decisions, solver_s=round(st.solver_s, 2), covers=st.covers,
                        cpu_s=round(getattr(st, 'spent', 0), 1)))
    complete = all(s.complete for s in stats.values())
    nund = sum(len(s.engine) for s in stats.values()) + len(spurious) + len(mism)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot('paths'), transitions=tot('decisions'), traces_validated_against_impl=validated, samples=[
                  dict(harness=v['harness'], variant=v['params'], inputs=v['inputs']) for v in val[:5]],
                  exhausted_within_bounds=complete and not nund, undecided_paths=nund, undecided=[u[:400] for u in undecided[:10]], queries=tot('queries') + tot('checks'), solver_time_s=round(tot('solver_s'), 2),
                  assertions=tot('reached'), assertion_queries=tot('checks'), assertions_discharged_syntactically=tot('triv'),
                  functions_encoded=sorted(entered), harnesses=per),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=len(reproduced))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)

    if a.v:
        for d in per: print('  %-28s %-60s paths %5d inf %4d exh %s asserts %5d q %6d %5d solver %6.1f cpu %6.1f cuts %d' % (d['harness'], json.dumps(d['variant'])[:60],
            d['paths'], d['infeasible'], 'Y' if d['exhausted'] else 'N(%d)' % d['pending_prefixes'], d['assertions'], d['branch_queries'], d['assertion_queries'], d['solver_s'], d['cpu_s'], d['concretisation_cuts']), {k:v for k,v in d['covers'].items()} or '')
    print('%s %s: %d paths, %d assertions, %d queries, solver %.1f s, validated %d/%d, exhausted %s, import %.1f s, explore %.1f s, total %.1f s' % (
        prop, tier, tot('paths'), tot('reached'), tot('queries') + tot('checks'), tot('solver_s'), validated, len(val), complete, t1 - t0, t2 - t1, time.time() - t0))
    if reproduced:
        seen = set(); n = 0
        for v in reproduced:
            key = (v['harness'], v['label'])
            if key in seen or n >= 8: continue
            seen.add(key); n += 1
            path = os.path.join(HERE, 'evidence', 'replay-%s-%d.json' % (prop, n))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(dict(property=prop, module=module, harness=v['harness'], params=v['params'], inputs=v['inputs'], partial=v.get('partial', False), label=v['label'],
                               detail=v['real'].get('detail', '')), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s %s: %s\n  inputs %s\n  %s' % (v['harness'], json.dumps(v['params']), v['label'], json.dumps(v['inputs']), str(v['real'].get('detail', ''))[-1200:]))
        if a.v:
            for p in problems + undecided: print('PROBLEM', p)
        sys.exit(1)
    for p in undecided: print('UNDECIDED', p)
    if nund: print('%d paths undecided' % nund)
    if problems or a.strict and undecided:
        for p in problems: print('ERROR', p)
        sys.exit(2)
    sys.exit(0)


COMMON = [
    'symbolic characters range over all of Unicode except surrogates and the private-use planes 15-16 (used by the engine to stand for symbolic characters), unless a harness states a smaller set',
    'code under test runs in CPython 3.12 during symbolic execution; counterexamples and path models are replayed with PyPy 3.9, the interpreter of the project',
    'operations of str, dict, set, list, int, re and parsimonious terminals on symbolic values are answered by the models in /verif/engine (rt.py, strops.py, sregex.py); the rest of parsimonious, six and the standard library runs unmodified',
]

if __name__ == '__main__': main()
