#!/usr/bin/env python3
"""DESIGN.md = DESIGN.head.md + table of properties and harnesses (from the sources) + DESIGN.tail.md + table of seeded bugs."""
import re, json, os, glob
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import importlib.util
out = [open('DESIGN.head.md').read()]
notes = {}
cur = None
for l in open('DESIGN.notes.md'):
    m = re.match(r'@(C\d+)', l)
    if m: cur = m.group(1); notes[cur] = ''
    elif cur: notes[cur] += l
for l in open('properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    out.append('### %s – %s\n\n%s\n\n' % (i, d['title'], notes.get(i, '').strip()))
    s = open('checks/%s.py' % i.lower()).read()
    rows = []
    for m in re.finditer(r"@harness\((.*?)\)\ndef (\w+)", s, re.S):
        b = re.search(r"bounds='((?:[^'\\]|\\.)*)'", m.group(1)); o = re.search(r"outside='((?:[^'\\]|\\.)*)'", m.group(1))
        t = (b.group(1) if b else '').replace("\\'", "'").replace('\\\\', '\\')
        if o: t += ' *(outside: %s)*' % o.group(1).replace("\\'", "'")
        rows.append('- `%s`: %s\n' % (m.group(2), t))
    out.append('Harnesses and bounds (in `checks/%s.py`):\n\n%s\n' % (i.lower(), ''.join(rows)))
out.append(open('DESIGN.tail.md').read())
res = json.load(open('tools/seed_results.json')) if os.path.exists('tools/seed_results.json') else {}
out.append('\n| seeded bug | property | breaks | quick check |\n|---|---|---|---|\n')
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f)); n = f.split('/')[1]
    out.append('| %s | %s | %s | %s |\n' % (n, d['property'], d['what_it_breaks'].replace('|', '\\|').replace('\n', ' '), res.get(n, 'not run')))
open('DESIGN.md', 'w').write(''.join(out))
