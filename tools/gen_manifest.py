"""Write /verif/MANIFEST.json: every property that has a check module is claimed, the others are listed with a reason."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
TECH = ('bounded symbolic execution of the real hypertag sources (instrumented from /repo on every run): script text, values and '
        'structure choices are z3 variables, every feasible path is explored, the property is a z3 query per path, '
        'counterexamples are replayed on the real interpreter')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': 'Exhaustive over all values of the symbolic inputs within the bounds listed in evidence (see DESIGN.md, section %s); '
                                     'nothing is claimed outside them.' % i})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the sources are instrumented in memory while they are imported. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
