from checks.common import *
import operator

def EQ(S, got, want, label, script):
    S.check(got == want, label, lambda: '%s\n  got %r\n want %r' % (script, got, want))

# ---------------------------------------------------------------------------- unpacking
# A pattern of targets: a name, or a tuple of patterns (unpacked).  As written in a script, with the pattern it denotes.
TARGETS = {
    'a':              'a',
    '(a)':            'a',
    'a,':             ('a',),
    '(a,)':           ('a',),
    '((a,))':         ('a',),
    '(a,),':          (('a',),),
    'a, b':           ('a', 'b'),
    'a ,b ,':         ('a', 'b'),
    '( a , b )':      ('a', 'b'),
    '(a),(b)':        ('a', 'b'),
    '(a,b),':         (('a', 'b'),),
    'a,(b,)':         ('a', ('b',)),
    '(a,),b':         (('a',), 'b'),
    'a, (b, c)':      ('a', ('b', 'c')),
    '(a, b), c,':     (('a', 'b'), 'c'),
    '(a,(b,c))':      ('a', ('b', 'c')),
    'a,((b,),c)':     ('a', (('b',), 'c')),
    'a,b,c':          ('a', 'b', 'c'),
    '((a,b,),(c,d))': (('a', 'b'), ('c', 'd')),
    'a,(b,(c,(d)))':  ('a', ('b', ('c', 'd'))),
    'a,b,c,d':        ('a', 'b', 'c', 'd'),
    'a,(b,c,),d,':    ('a', ('b', 'c'), 'd'),
    'a,a':            ('a', 'a'),
    '(a,b),a':        (('a', 'b'), 'a'),
}
ALL = 'abcd'

class Bad(Exception): pass

def unpack(p, v, out):
    """Reference: Python's unpacking."""
    if isinstance(p, str): out[p] = v; return
    if not isinstance(v, (list, tuple, str)): raise Bad()
    if len(v) != len(p): raise Bad()
    for i in range(len(p)): unpack(p[i], v[i], out)

def value(S, p, dev, n, sym):
    """A value of the shape of the pattern; at the places counted down by dev it deviates: an item missing, an item more or no sequence."""
    n[0] += 1
    me = n[0]
    if isinstance(p, str):
        if me == dev[0]: return [S.choice('odd%d' % me, [0, None, ()])]
        return sym if me == dev[1] else me
    items = [value(S, q, dev, n, sym) for q in p]
    if me == dev[0]:
        k = S.pick('dev%d' % me, 4)
        if k == 0: items = items[:-1]
        elif k == 1: items = items + [sym]
        elif k == 2: return 7
        else: return ['z%d' % i for i in range(len(items) + 1)]
    k = S.pick('kind', 2) if me == dev[0] else 0
    return tuple(items) if (len(p) + k) % 2 else items

def size(p): return 1 if isinstance(p, str) else 1 + sum([size(q) for q in p])

def eq(a, b):
    if isinstance(a, (list, tuple)): return type(a) == type(b) and len(a) == len(b) and all([eq(x, y) for x, y in zip(a, b)])
    return not isinstance(b, (list, tuple)) and a == b

FORMS = [('$@P@ = v', 1), ('$ @P@=v # c', 1), ('$(@P@) = v', 1), ('if x\n  $@P@ = v', 1), ('for i in [1]\n  $@P@ = v', 1), ('for @P@ in [v]\n  pass', 1), ('for (@P@) in (v,)\n  $e = 0', 1), ('for @P@ in [w, v]\n  pass', 1), ('try\n  $@P@ = v', 2)]

def good(p):
    """A value that fits the pattern"""
    return 0 if isinstance(p, str) else [good(q) for q in p]

@harness(quick=prod(form=[0, 5]) + [{'form': f, 'few': True} for f in [1, 2, 3, 4, 6, 7, 8]], thorough=[{'form': f} for f in range(len(FORMS))],
         bounds='twenty four target lists of up to four variables; values that fit or deviate at any one place (an item less, an item more, no sequence, another sequence), lists and tuples, one leaf a symbolic character')
def unpacking(S, form, few=False):
    names = sorted(TARGETS)[::5 if few else 1]
    t = names[S.pick('targets', len(names))]
    p = TARGETS[t]
    f, kind = FORMS[form]
    if form in (0, 1, 3, 4) and t[-1:] == '=': return
    sym = S.text('s', 1, VAL)
    n = size(p)
    dev = [S.pick('dev', n + 1), S.pick('leaf', n + 1) if not few else 1]
    v = value(S, p, dev, [0], sym)
    if f[:4] == 'for ' and t[-1:] == ',' and '(@P@)' not in f: f = f.replace('@P@', '(@P@)')     # a trailing comma there needs a space: use parentheses
    script = 'context $v, $w, $x\n$e = "keep"\n' + fill(f, t, '@P@') + '\n$z = 1\n'
    r = S.run(lambda: HyperHTML().translate(script, v=v, w=good(p), x=True))
    want = {}
    try: unpack(p, v, want); ok = True
    except Bad: ok = False
    if not ok and kind == 1:
        S.check(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'the number of values differs from the number of targets', lambda: '%s v=%r got %r' % (script, v, r))
        return
    S.check(r[0] == 'ok', 'the value fits the targets', lambda: '%s v=%r got %r' % (script, v, r))
    sy = r[1].symbols
    if form == 6: want['e'] = 0
    else: want['e'] = 'keep'
    want['z'] = 1
    if kind == 2 and not ok: want = {'e': 'keep', 'z': 1}
    for k in want: S.check('$' + k in sy and eq(sy['$' + k], want[k]), 'each target gets its item', lambda: '%s v=%r %s=%r want %r' % (script, v, k, sy.get('$' + k, 'missing'), want[k]))
    if kind == 1:
        for k in ALL: S.check(k in want or '$' + k not in sy, 'only the targets are bound', lambda: '%s %r' % (script, sy.keys()))

# other iterables
ITER = {
    'str':   lambda s, n: s if len(s) == n else None,
    'gen':   lambda s, n: (c for c in s),
    'iter':  lambda s, n: iter(list(s)),
    'range': lambda s, n: range(5, 5 + len(s)),
    'dict':  lambda s, n: {i: c for i, c in enumerate(s)},
    'endless': None,
}
@harness(quick=prod(k=sorted(set(ITER) - {'endless'})), bounds='strings, generators, iterators, ranges and dicts of 0-3 items unpacked to one to three targets')
def iterables(S, k):
    s = S.string('s', 3, VAL)
    n = S.pick('n', 3) + 1
    t = ['a,', 'a,b', 'a,b,c'][n - 1]
    mk = lambda: (s if k == 'str' else ITER[k](s, n))
    items = list(mk())
    form = S.pick('form', 2)
    v = mk()
    script = 'context $v\n' + ('$' + t + ' = v' if form == 0 else 'for (' + t + ') in [v]\n  pass') + '\n'
    r = S.run(lambda: HyperHTML().translate(script, v=v))
    if len(items) != n: S.check(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'wrong number of values', lambda: '%s %r got %r' % (script, items, r)); return
    S.check(r[0] == 'ok', 'right number of values', lambda: '%s %r got %r' % (script, items, r))
    S.check([r[1].symbols['$' + c] for c in 'abc'[:n]] == items, 'item by item', lambda: '%s %r' % (script, items))

@harness(quick=[{}], bounds='unpacking of an endless iterator and of values that cannot be iterated is an error')
def not_unpackable(S):
    def endless():
        while True: yield 1
    v = [endless(), None, 5, 1.5, object(), True][S.pick('v', 6)]
    t = S.choice('t', ['a,b', 'a,', '(a,b),c', '(a,)'])
    form = S.pick('form', 2)
    script = 'context $v\n' + ('$' + t + ' = v' if form == 0 else 'for (' + t + ') in [v]\n  pass') + '\n'
    r = S.run(lambda: HyperHTML().translate(script, v=v))
    S.check(r[0] == 'err' and isinstance(r[1], (TypeError, ValueError)), 'an error', lambda: '%s got %r' % (script, r))

# ---------------------------------------------------------------------------- in-place operators
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '<<': operator.lshift, '>>': operator.rshift, '&': operator.and_, '|': operator.or_, '^': operator.xor}
BITS = ['<<', '>>', '&', '|', '^']

PLACES = [
    ('$x @O@= y', None), ('$x@O@=y # c', None), ('$ x  @O@=  {y}'.replace('{y}', '(y)'), None), ('$x @O@= y if y == y else 0', None),
    ('if True\n  $x @O@= y', None), ('for i in [1]\n  $x @O@= y', None), ('$x @O@= f(y)', None),
]

@harness(quick=prod(op=sorted(OPS)), thorough=prod(op=sorted(OPS), m=[7]), bounds='in-place operators over symbolic integers in seven places of a script')
def inplace(S, op, m=3):
    lo = 0 if op in ('<<', '>>') else -m
    # operators of bits and quotients: small ranges (the operands are decided one by one)
    a = S.int('a', -m * 10 if op in '+-*' else -m, m * 10 if op in '+-*' else m)
    b = S.int('b', lo, m)
    place, _ = PLACES[S.pick('place', len(PLACES))]
    if op in BITS or op in ('/', '//', '%'): a, b = S.conc(a), S.conc(b)
    calls = []
    def f(v): calls.append(v); return v
    script = 'context $p, $q, $f\n$x = p\n$y = q\n$w = x\n$u = [x]\n' + place.replace('@O@', op) + '\n$z = x\n'
    r = S.run(lambda: HyperHTML().translate(script, p=a, q=b, f=f))
    if op in ('/', '//', '%') and S.conc(b == 0):
        S.check(r[0] == 'err' and isinstance(r[1], ZeroDivisionError), 'division by zero', lambda: '%s %r' % (script, r)); return
    want = OPS[op](a, b)
    S.check(r[0] == 'ok', 'in-place operator', lambda: '%s %r' % (script, r))
    sy = r[1].symbols
    for k, w in [('x', want), ('z', want), ('y', b), ('w', a)]: S.check(sy['$' + k] == w, 'value of %s' % k, lambda: '%s a=%r b=%r %s=%r want %r' % (script, a, b, k, sy['$' + k], w))
    S.check(sy['$u'][0] == a and len(sy['$u']) == 1, 'no other variable changes', script)
    S.check(len(calls) == (1 if 'f(' in place else 0), 'the right side is evaluated once', script)
    S.check(type(sy['$x']) == type(want), 'type of the result', script)

@harness(quick=[{}], thorough=[{'n': 3}], bounds='in-place operators over strings, lists, tuples, sets and dicts; the old value, known by another name, does not change')
def inplace_other(S, n=1):
    s = S.text('s', n, VAL); t = S.text('t', n, VAL)
    cases = [
        ('+', s, t, s + t), ('*', s, 3, s + s + s), ('+', [s], [t], [s, t]), ('*', [s], 2, [s, s]), ('+', (s,), (t, t), (s, t, t)),
        ('|', {1, 2}, {2, 3}, {1, 2, 3}), ('&', {1, 2}, {2, 3}, {2}), ('-', {1, 2}, {2, 3}, {1}), ('^', {1, 2}, {2, 3}, {1, 3}), ('+', [], [], []), ('+', '', s, s), ('+', [s], t, TypeError), ('+', s, 1, TypeError), ('-', s, t, TypeError),
        ('|', True, False, True), ('+', True, True, 2), ('*', 1.5, 2, 3.0), ('-', 1, 0.5, 0.5), ('<<', 1, -1, ValueError), ('+', None, 1, TypeError),
    ]
    op, a, b, want = cases[S.pick('case', len(cases))]
    place, _ = PLACES[S.pick('place', len(PLACES))]
    keep = list(a) if isinstance(a, list) else set(a) if isinstance(a, set) else a
    script = 'context $p, $q, $f\n$x = p\n$y = q\n$w = x\n' + place.replace('@O@', op) + '\n$z = w\n'
    r = S.run(lambda: HyperHTML().translate(script, p=a, q=b, f=lambda v: v))
    if isinstance(want, type): S.check(r[0] == 'err' and isinstance(r[1], want), 'an error', lambda: '%s %r' % (script, r)); return
    S.check(r[0] == 'ok', 'in-place operator', lambda: '%s %r' % (script, r))
    sy = r[1].symbols
    S.check(sy['$x'] == want and type(sy['$x']) == type(want), 'the value of the binary operation', lambda: '%s %r want %r' % (script, sy['$x'], want))
    S.check(sy['$w'] is a and sy['$z'] is a and a == keep and sy['$y'] is b, 'no other variable changes', lambda: '%s %r' % (script, sy['$w']))

# ---------------------------------------------------------------------------- scripts of assignments
# Statements over the variables a, b, c; reference: functions of the environment
STMTS = [
    ('$a = 1', lambda e: e.update(a=1)),
    ('$b = a', lambda e: e.update(b=e['a'])),
    ('$a, b = b, a', lambda e: e.update(a=e['b'], b=e['a'])),
    ('$a += b', lambda e: e.update(a=e['a'] + e['b'])),
    ('$c -= a', lambda e: e.update(c=e['c'] - e['a'])),
    ('$(a, (b, c)) = b, (c, a)', lambda e: e.update(a=e['b'], b=e['c'], c=e['a'])),
    ('$b *= 2', lambda e: e.update(b=e['b'] * 2)),
    ('$c = a + b * c', lambda e: e.update(c=e['a'] + e['b'] * e['c'])),
    ('if a < b\n  $a, c = c, b', lambda e: e.update(a=e['c'], c=e['b']) if e['a'] < e['b'] else None),
    ('for c in [a, b]\n  $b += c', lambda e: e.update(b=e['b'] + e['a'] + e['b'], c=e['b'])),
    ('for i, (b, c) in [(1, (a, b)), (2, (c, a))]\n  $a = i', None),
    ('try\n  $a, b = [c]\nelse\n  $c = 5', lambda e: e.update(c=5)),
    ('try\n  $b, c, = [c, a, 1]', lambda e: None),
    ('p\n  $a = 100\n  $b += 100', lambda e: None),
    ('% H a b=2\n  $a = b\n  $c = a\nH $c', lambda e: None),
    ('$b = b if b > a else a', lambda e: e.update(b=e['b'] if e['b'] > e['a'] else e['a'])),
]
STMTS = [s for s in STMTS if s[1]]

@harness(quick=[{'i': i} for i in range(len(STMTS))], thorough=[{'i': i, 'n': 3} for i in range(len(STMTS))], bounds='sequences of two (thorough: three) assignments out of fifteen kinds, over three variables with symbolic integer values')
def sequence(S, i, n=2):
    e = {k: S.int(k, -50, 50) for k in 'abc'}
    start = dict(e)
    script = 'context $p, $q, $r\n$a, (b, c), = p, (q, r)\n'
    for k in range(n):
        j = i if k == 0 else S.pick('s%d' % k, len(STMTS))
        script += STMTS[j][0] + '\n'
        STMTS[j][1](e)
    script += '| $a $b $c\n' if n < 0 else ''
    r = S.run(lambda: HyperHTML().translate(script, p=start['a'], q=start['b'], r=start['c']))
    S.check(r[0] == 'ok', 'the script runs', lambda: '%s %r' % (script, r))
    sy = r[1].symbols
    for k in 'abc': S.check(sy['$' + k] == e[k], 'value of the variable', lambda: '%s %r: %s=%r want %r' % (script, start, k, sy['$' + k], e[k]))
    S.check(all([k[0] == '%' or k[1:] in ('a', 'b', 'c', 'H') for k in sy if k[:3] != '$__' and k[1:] not in ('p', 'q', 'r')]), 'output symbols', lambda: '%s %r' % (script, list(sy)))

# ---------------------------------------------------------------------------- output symbols
@harness(quick=[{}], thorough=[{'n': 2}], bounds='top-level, nested, local and imported bindings: the output symbols are the top-level ones, with the values they have at the end')
def symbols(S, n=1):
    v = S.text('v', n, VAL)
    f = S.flag('f'); 
    script = ('context $v, $f\n$a = v\n$b = [a]\n% H @x y\n  $loc = y\n  @x\nH 1\n  $inner = 1\nif f\n  $c = a\n  $a = "A"\nelse\n  $d = 4\n  $a = "B"\n'
              'for k in [1, 2]\n  $last = k\ndiv\n  $deep = 1\n  % L\n    | x\n$len = 3\n$b.append(2)\n$e, e2 = v, a\ntry\n  $t = {1/0}\nelse\n  $t = "t"\n')
    script = script.replace('{1/0}', '1/0').replace('$b.append(2)', '$ b.append(2)')
    r = S.run(lambda: HyperHTML().translate(script, v=v, f=f))
    S.check(r[0] == 'ok', 'the script runs', lambda: '%s %r' % (script, r))
    sy = r[1].symbols
    A = 'A' if f else 'B'
    want = {'a': A, 'b': [v, 2], 'k': 2, 'last': 2, 'len': 3, 'e': v, 'e2': A, 't': 't'}
    want.update({'c': v} if f else {'d': 4})
    for k in want: S.check('$' + k in sy and eq(sy['$' + k], want[k]), 'a top-level binding is an output symbol', lambda: '%s: %r want %r' % (k, sy.get('$' + k, 'missing'), want[k]))
    S.check('%H' in sy and '%L' not in sy and '%' + 'div' not in sy, 'tags', lambda: repr(list(sy)))
    for k in ('loc', 'inner', 'deep', 'x', 'y', 'upper', 'd' if f else 'c'): S.check('$' + k not in sy, 'no other binding is', lambda: k + ' ' + repr(list(sy)))
