#!/usr/bin/env python3
"""
Planted bugs: make, validate and try them.

    seed.py make FILE.py       FILE.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]; writes /verif/seeded/<id>/
    seed.py try [ID ...]       for each: patch applies, tests pass, demo passes before and fails after, and the property's check reports it
Scratch copies of /repo live under /tmp and are removed afterwards.
"""
import sys, os, json, subprocess, shutil, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
DEMO_SH = '#!/bin/bash\n# exit 0 when the property holds for this input, nonzero otherwise; run with cwd = the repository\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')


def scratch(tag):
    d = '/tmp/seed_%s' % tag
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo', d, symlinks=True)
    return d


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    base = sh('git rev-list --max-parents=0 HEAD', '/repo').stdout.split()
    for s in ns['SEEDS']:
        d = scratch('make')
        try:
            for f, old, new in s['edits']:
                p = os.path.join(d, f)
                t = open(p, encoding='utf-8').read()
                if t.count(old) != 1:
                    print('%s: %d matches of %r in %s' % (s['id'], t.count(old), old[:60], f)); break
                open(p, 'w', encoding='utf-8').write(t.replace(old, new))
            else:
                out = os.path.join(SEEDED, s['id']); os.makedirs(out, exist_ok=True)
                diff = sh('git diff', d).stdout
                open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8').write(diff)
                open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
                open(os.path.join(out, 'demo.py'), 'w', encoding='utf-8').write(s['demo'].lstrip('\n'))
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(os.path.join(out, 'meta.json'), 'w'), indent=1)
                # lines the patch replaces must not all come from our own commits
                own = 0; total = 0
                for f in sorted({e[0] for e in s['edits']}):
                    blame = sh('git blame -s -l %s' % f, '/repo').stdout.split('\n')
                    hunk = sh('git diff -U0 %s' % f, d).stdout.split('\n')
                    for l in hunk:
                        if l.startswith('@@'):
                            a = l.split()[1][1:].split(','); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                            for i in range(st - 1, st - 1 + n):
                                total += 1; own += not blame[i].lstrip('^').startswith(base[0][:20])
                print('%s written; replaced lines %d, of them added by fix commits %d%s' % (s['id'], total, own, '   <<< CHECK' if own == total else ''))
        finally: shutil.rmtree(d, ignore_errors=True)


def attempt(i, check=True):
    out = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(out, 'meta.json')))
    d = scratch(i)
    try:
        r = sh('bash %s/demo.sh' % out, d)
        if r.returncode: return 'BAD demo fails on the unchanged tree: ' + r.stdout[-300:]
        r = sh('git apply %s/patch.diff' % out, d)
        if r.returncode: return 'BAD patch does not apply: ' + r.stdout[-300:]
        r = sh('bash %s/demo.sh' % out, d)
        if not r.returncode: return 'BAD demo passes with the patch'
        py = 'PYTHONPATH=src PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors -W ignore::DeprecationWarning '
        t = sh('%s tests; %s --doctest-modules --deselect src/hypertag/nifty/util.py::hypertag.nifty.util.timestamp src/hypertag' % (py, py), d)
        ls = [l for l in t.stdout.split('\n') if ' passed' in l or ' failed' in l]
        import re
        n = sum(int(x) for l in ls for x in re.findall(r'(\d+) passed', l)); bad = sum(int(x) for l in ls for x in re.findall(r'(\d+) failed', l))
        tests = 'tests %d/%d%s' % (n, n + bad, '' if n == 47 else '  <<< TESTS FAIL')
        if not check: return tests
        t0 = time.time()
        r = sh('./check.py %s --tier quick' % meta['property'], HERE, {'HYPERTAG_REPO': d, 'VERIF_SEED': '1'})
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        return 'rc=%d %s %.0fs | %s | %s' % (r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', time.time() - t0, tests, (v[0][:140] if v else r.stdout[-200:].replace('\n', ' / ')))
    finally: shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make': make(sys.argv[2])
    else:
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            r = attempt(i, sys.argv[1] == 'try')
            print(i, r, flush=True)
            if sys.argv[1] == 'try':            # for DESIGN.md
                f = os.path.join(HERE, 'tools', 'seed_results.json')
                d = json.load(open(f)) if os.path.exists(f) else {}
                d[i] = 'caught' if 'CAUGHT' in r else 'missed' if 'MISSED' in r else 'bad'
                json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
