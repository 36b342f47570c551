from checks.common import *
from hypertag.core.errors import HError

# Expressions that have the same syntax and meaning in Python; E0, E1 ... are calls with side effects
EXPRS = ['E0 and E1', 'E0 or E1', 'E0 and E1 and E2', 'E0 or E1 or E2', 'E0 and E1 or E2', 'E0 or E1 and E2', 'not E0 and E1', 'not (E0 or E1)', 'not E0 or not E1', '(E0 or E1) and (E2 or E3)',
         'E1 if E0 else E2', '(E1 if E0 else E2) if E3 else E4', 'E1 if E0 else E2 if E3 else E4', 'E1 if E0 and E3 else E2', 'E1 or E0 if E2 else E3', '[E0 if E1 else E2]', 'f(E0 or E1, E2 and E3)', 'not (E0 if E1 else E2)', '(E0 and E1)(3)'.replace('(3)', ''), 'E0 and (E1 or E2) and E3',
         'E0 < E1 < E2', 'E0 == E1 != E2', 'E0 < E1 and E1', 'E0 in [E1, E2]', 'E0 not in [E1] or E2', 'E0 is E1', 'E0 <= E1 if E2 else E3', 'E0 < E1 < E2 < E3', '(E0 < E1) + E2', 'not E0 < E1']
CALLS = ['f(E0, E1, E2)', 'f(E0, k=E1)', 'f(k=E0, m=E1)', 'f()', 'f(E0)(E1)', 'f(f(E0), f(E1))', 'f(E0)[0]', 'o.m(E0).m(E1)', 'o.m(k=E0)', 'o.a', 'o.o.o.a', 'o.m(E0).o.m(E1, j=E2).a', 'f(o.a, E0)', 'f(E0,)', 'f( E0 , k = E1 , )', 'g(E0)(E1)(E2)', '(f)(E0)', '[f][0](E0)', '{"f": f}["f"](E0, k=E1)', 'o["m"](E0)', 'o . a', 'o .m (E0)', 'f (E0)',
         'o[E0]', 'o[E0, E1]', 'o[E0:E1]', 'o[E0:E1:E2]', 'o[:]', 'o[::]', 'o[E0:]', 'o[:E0]', 'o[::E0]', 'o[E0::E1]', 'o[:E0:E1]', 'o[E0][E1]', 'o[o.a]', 'o[E0].a', 'o[E0,]', 'o[f(E0):f(E1)]', 'o[-E0]', 'o[E0 + E1]', 'o[(E0)]', 'o[(E0, E1):2]', 'o[[E0]]', 'o["k"]', 'o[ E0 : E1 ]', 'o[ E0 ]',
         '[E0, E1, [E2]]', '(E0, (E1,), E2)', '{E0: E1, "x": E2}'.replace('E0:', '"y":'), '[E0][0]', '[E0, E1][-1:]', '(E0, E1)[1]', '"abc"[1:]', '"abc".upper()', '"a b".split()[1]', '{"a": E0}["a"]', '{"a": E0}.get("b", E1)', '[1, 2, 3][E0 - E0]'.replace('E0 - E0', '1'),
         'E0 + E1 + E2', 'E0 - E1 * E2', '-E0 + E1', '(E0 + E1) * E2', 'E0 * E1 + E2 * E3', 'E0 | E1 & E2 ^ E3', 'E0 << 1 >> 1', 'E0 % 2 + E1 // 2', 'f(E0) + f(E1)'.replace(' + f(E1)', '')]
# pipelines: Hypertag expression, the same in Python
PIPES = [('E0 : f', 'f(E0)'), ('E0 : f()', 'f(E0)'), ('E0 : f(E1)', 'f(E0, E1)'), ('E0 : f(E1, E2)', 'f(E0, E1, E2)'), ('E0 : f(k=E1)', 'f(E0, k=E1)'), ('E0 : f(E1, k=E2)', 'f(E0, E1, k=E2)'), ('E0 : f : f', 'f(f(E0))'), ('E0 : f(E1) : f(E2)', 'f(f(E0, E1), E2)'), ('E0 : f : f(E1, k=E2) : f', 'f(f(f(E0), E1, k=E2))'),
         ('E0 + E1 : f', 'f(E0 + E1)'), ('E0:f', 'f(E0)'), ('E0:f(E1):f', 'f(f(E0, E1))'), ('E0 : o.m', 'o.m(E0)'), ('E0 : o.m(E1)', 'o.m(E0, E1)'), ('E0 : o.o.m(k=E1) : f', 'f(o.o.m(E0, k=E1))'), ('E0 : fs[0]', 'fs[0](E0)'), ('E0 : fs[E1 * 0](E2)', 'fs[e(1) * 0](E0, E2)'.replace('fs[e(1) * 0](E0, E2)', 'P')),
         ('(E0, E1) : f', 'f((E0, E1))'), ('[E0] : f(E1)', 'f([E0], E1)'), ('f(E0) : f(f(E1))', 'f(f(E0), f(E1))'), ('(E0 : f) : f(E1 : f)', 'f(f(E0), f(E1))'), ('f(E0 : f, E1)', 'f(f(E0), E1)'), ('[E0 : f, E1 : f]', '[f(E0), f(E1)]'), ('(E0 : f) + 1 if E1 else E2', 'X'), ('(E0 : f) == E1', 'f(E0) == E1'), ('E0 : f == E1', 'f(E0) == E1'), ('E0 : f and E1', 'f(E0) and E1'),
         ('not E0 : f', 'not f(E0)'), ('E0 if E1 : f else E2', 'E0 if f(E1) else E2'), ('E0 or E1 : f', 'E0 or f(E1)'), ('-E0 : f', 'f(-E0)'), ('E0 : (f)', 'f(E0)'), ('E0 : (f if E1 else f)', 'F'), ('E0 : f(E1 or E2)', 'f(E0, E1 or E2)'), ('o[E0] : f', 'f(o[E0])'), ('o.a : f(E0)', 'f(o.a, E0)'), ('E0 : f(E1 : f)', 'f(E0, f(E1))'), ('E0 : str : len', 'len(str(E0))'), ('{"a": E0}["a"] : f', 'f({"a": E0}["a"])'), ('o[(E0 : f):]', 'o[f(E0):]'.replace('f(E0)', 'f(E0)'))]
PIPES = [p for p in PIPES if p[1] not in ('P', 'X', 'F')]

class Boom(Exception): pass

class World(object):
    """Objects of an evaluation; everything that happens is recorded."""
    def __init__(self, vals, fail):
        self.log, self.vals, self.fail = [], vals, fail
        w = self
        class F(object):
            """Result of a call: distinguishable, callable, indexable"""
            def __init__(s, *key): s.key = key
            def __eq__(s, o): return isinstance(o, F) and o.key == s.key or not isinstance(o, F) and hasattr(o, 'key') and o.key == s.key
            def __ne__(s, o): return not (s == o)
            def __call__(s, *a, **k): return w.called(F, 'call', s, a, k)
            def __getitem__(s, i): return w.called(F, 'item', s, (i,), {})
            def __getattr__(s, n):
                if n.startswith('__') or n == 'key': raise AttributeError(n)
                return F(s.key, n)
        self.f, self.o = F('f'), F('o')
        self.g = self.f
        self.fs = [self.f, F('f1')]
    def called(self, F, kind, s, a, k):
        self.log.append((kind, s.key, tuple([show(x) for x in a]), tuple([(n, show(k[n])) for n in sorted(k)])))
        return F(kind, s.key, len(self.log))
    def e(self, i):
        self.log.append(('e', i))
        if i == self.fail: raise Boom(i)
        return self.vals[i]
    def names(self): return {'e': self.e, 'f': self.f, 'g': self.g, 'o': self.o, 'fs': self.fs}

def show(x):
    if hasattr(x, 'key'): return ('F', x.key)
    if isinstance(x, slice): return ('slice', show(x.start), show(x.stop), show(x.step))
    if isinstance(x, (list, tuple)): return (type(x).__name__,) + tuple([show(i) for i in x])
    if isinstance(x, dict): return ('dict',) + tuple([(k, show(v)) for k, v in x.items()])
    return x

def source(t, n=9):
    for i in range(n): t = t.replace('E%d' % i, 'e(%d)' % i)
    return t

FORMS = ['$r = {}\n| x', '| {{rec({})}}', '| a {{ rec( {} ) }} b', 'p title={{rec({})}}', '% H a\n  | x\nH {{rec({})}}', 'if rec({}) | a', '% H a={{rec({})}}\n  | $a\nH', 'for x in rec({}) | q', 'div\n  | {{[rec({})][0]}}', '$r = [{}][0]', '$a, b = rec({}), 2', 'try | {{rec({})}}\nelse | z']

def check_expr(S, src, py, form, n):
    vals = {i: S.int('v%d' % i, -1, 1) for i in range(n)}
    fail = S.pick('fail', n + 1) - 1 if n else -1
    ref = World(vals, fail)
    env = ref.names()
    want = S.run(lambda: eval(source(py), env))
    # in Hypertag
    w = World(vals, fail)
    got = []
    def rec(x):
        got.append(x)
        return 'R'
    s = 'context $e, $f, $g, $o, $fs, $rec\n' + FORMS[form].replace('{{', '\x01').replace('}}', '\x02').replace('{}', source(src)).replace('\x01', '{').replace('\x02', '}')
    r = S.run(lambda: HyperHTML().translate(s, rec=rec, **w.names()))
    if r[0] == 'ok': r[1].dom.render()
    d = lambda: '%s\nevaluations %r\nin Python   %r\nresult %r, in Python %r' % (s, w.log, ref.log, r, want)
    S.check(len(w.log) == len(ref.log) and show(w.log) == show(ref.log), 'evaluated in the same order as in Python, each at most once', d)
    if want[0] == 'err':
        if form == 11: S.check(r[0] == 'ok', 'contained', d)
        else: S.check(r[0] == 'err' and (isinstance(r[1], type(want[1])) or isinstance(r[1], HError)), 'same error', d)
        return
    S.check(r[0] == 'ok', 'evaluated', d)
    if form in (0, 9): got.append(r[1].symbols['$r'])
    S.check(len(got) == 1, 'result', d)
    S.check(type(got[0]) is type(want[1]) or hasattr(got[0], 'key'), 'type of the result', d)
    S.check(show(got[0]) == show(want[1]), 'same value as in Python', d)

def count(t): return max([int(t[i + 1]) + 1 for i in range(len(t) - 1) if t[i] == 'E' and t[i + 1].isdigit()] or [0])

@harness(quick=[{'k': k} for k in range(0, len(EXPRS), 3)], thorough=[{'k': k, 'forms': True} for k in range(0, len(EXPRS), 3)],
         bounds='30 expressions with and, or, not, conditional and comparison operators; operands with side effects and symbolic values -1 to 1, any of them failing; four (thorough: all twelve) places of the expression')
def logic(S, k, forms=False):
    j = k + S.pick('j', 3)
    n = count(EXPRS[j])
    form = S.pick('form', len(FORMS)) if forms else (j * 5 + S.pick('form', 4) * 7) % len(FORMS)
    check_expr(S, EXPRS[j], EXPRS[j], form, n)

@harness(quick=[{'k': k} for k in range(0, len(CALLS), 8)], thorough=[{'k': k, 'forms': True} for k in range(0, len(CALLS), 8)],
         bounds='66 expressions with calls, indexing, slices, member access, collections and arithmetic; operands with side effects, any of them failing; four (thorough: all twelve) places of the expression')
def calls(S, k, forms=False):
    j = S.pick('j', min(8, len(CALLS) - k)) + k
    n = count(CALLS[j])
    form = S.pick('form', len(FORMS)) if forms else (j * 5 + S.pick('form', 4) * 7) % len(FORMS)
    check_expr(S, CALLS[j], CALLS[j], form, n)

@harness(quick=[{'k': k} for k in range(0, len(PIPES), 6)], thorough=[{'k': k, 'forms': True} for k in range(0, len(PIPES), 6)],
         bounds='36 pipelines with and without arguments, alone and inside other expressions; four (thorough: all twelve) places')
def pipes(S, k, forms=False):
    j = S.pick('j', min(6, len(PIPES) - k)) + k
    src, py = PIPES[j]
    form = S.pick('form', len(FORMS)) if forms else (j * 5 + S.pick('form', 4) * 7) % len(FORMS)
    check_expr(S, src, py, form, count(src))

@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='symbolic texts of up to two (thorough: three) Unicode characters and all indices and slice bounds from -3 to 3: the same as in Python', outside='longer texts')
def slices(S, n):
    t = S.string('t', n, VAL)
    form = S.pick('form', 4)
    if form == 0:
        i = S.pick('i', 7) - 3
        src, f = '%d' % i, lambda: t[i]
    elif form == 1:
        i, j = S.pick('i', 6) - 3, S.pick('j', 6) - 3
        src, f = '%d:%d' % (i, j), lambda: t[i:j]
    elif form == 2:
        i, k = S.pick('i', 6) - 3, S.choice('k', [-2, -1, 0, 1, 2])
        if S.flag('end'): src, f = ':%d:%d' % (i, k), lambda: t[:i:k]
        else: src, f = '%d::%d' % (i, k), lambda: t[i::k]
    else:
        i = S.pick('i', 6) - 3
        if S.flag('end'): src, f = ':%d' % i, lambda: t[:i]
        else: src, f = '%d:' % i, lambda: t[i:]
    want = S.run(f)
    got = []
    def rec(x):
        got.append(x)
        return ''
    r = S.run(render, 'context $t, $rec\n| {rec(t[' + src + '])}', t=t, rec=rec)
    S.check(r[0] == want[0], 'same outcome', lambda: '%r %r %r' % (src, r, want))
    if want[0] == 'ok': S.eq(got[0], want[1], 'same part')
    else: S.check(isinstance(r[1], type(want[1])), 'same error', lambda: repr(r))

def pyargs(*a, **k): return ('call', a, k)

@harness(quick=[{'np': p, 'nn': q} for p in (0, 1, 2) for q in (0, 1, 2)], thorough=[{'np': 3, 'nn': 3}, {'np': 4, 'nn': 1}], bounds='calls and pipelines with up to two (thorough: four) positional and up to two (three) named arguments, names and values symbolic', outside='more arguments')
def arguments(S, np, nn):
    ps = [S.text('p%d' % i, 1, VAL) for i in range(np)]
    names = [S.ident('n%d' % i) for i in range(nn)]
    S.assume(all([names[i] != names[j] for i in range(nn) for j in range(i)]))
    vs = [S.int('v%d' % i) for i in range(nn)]
    args = ['p%d' % i for i in range(np)] + [names[i] + (S.choice('eq', ['=', ' = ']) if i == 0 else '=') + 'v%d' % i for i in range(nn)]
    ctx = {'p%d' % i: ps[i] for i in range(np)}
    ctx.update({'v%d' % i: vs[i] for i in range(nn)})
    got = []
    def f(*a, **k):
        got.append((a, k))
        return 'R'
    head = 'context ' + ', '.join(['$' + k for k in list(ctx) + ['f', 'q']]) + '\n'
    q = S.text('q', 1, VAL)
    sep = S.choice('sep', [',', ', '])
    out = render(head + '| {f(' + sep.join(args) + ')}\n| {q : f(' + sep.join(args) + ')}\n| $f(' + sep.join(args) + ')', f=f, q=q, **ctx)
    S.eq(out, 'R\nR\nR', 'result of the call')
    S.check(len(got) == 3, 'called once each', lambda: repr(got))
    for n, (a, k) in enumerate(got):
        want = ([q] if n == 1 else []) + ps
        S.check(len(a) == len(want) and all([a[i] is want[i] or a[i] == want[i] for i in range(len(a))]), 'positional arguments in order', lambda: '%r %r' % (got, want))
        S.check(len(k) == nn and all([names[i] in k and k[names[i]] == vs[i] for i in range(nn)]), 'named arguments', lambda: '%r' % (got,))

@harness(quick=[{}], bounds='embeddings $name with trailers: members, indices, calls, as far as they reach')
def inline(S):
    t = S.text('t', 1, VAL)
    class O(object):
        a = t
        def m(self, *x): return t + ''.join([str(i) for i in x])
        def __getitem__(self, i): return t + '[%s]' % (i if not isinstance(i, slice) else 'S%s,%s' % (i.start, i.stop))
    o = O()
    o.o = o
    src, want = S.choice('e', [('$o.a', t), ('$o.m()', t), ('$o.m(1)', t + '1'), ('$o[1]', t + '[1]'), ('$o["k"]', t + '[k]'), ('$o[1:2]', t + '[S1,2]'), ('$o.o.a', t), ('$o.o.m(1, 2)', t + '12'), ('$o[1].strip("]")', t + '[1'), ('$o.m(o.m(1))', t + t + '1'), ('$o.a $o.a', t + ' ' + t), ('$o.a. x', t + '. x'), ('$o.a (1)', t + ' (1)'), ('$o.a, $o.a', t + ', ' + t), ('$o.a-b', t + '-b'), ('$o.a:str', t + ':str'), ('$o.a [1]', t + ' [1]'), ('{o.a}.a', t + '.a'), ('{o}[1]'.replace('{o}', '{o.a}'), t + '[1]'), ('$o.a...', t + '...'), ('$o.a?', t), ('$o.a!', t)])
    if 'strip' in src: S.assume(t != ']')
    S.eq(render_ctx('/ ' + src, o=o), want, 'embedding')
    S.eq(render_ctx('/ (' + src + ')', o=o), '(' + want + ')', 'embedding in brackets')

@harness(quick=[{}], bounds='members and items of dicts, subclasses, lists and objects that have attributes and keys with the same or different symbolic names: .name is the attribute and [key] the item, as in Python')
def members(S):
    ab = RangeSet.of('abc')
    k1, k2, a1, a2 = [S.text(x, 1, ab) for x in ('k1', 'k2', 'a1', 'a2')]
    use = S.text('use', 1, ab)
    kind = S.choice('kind', ['dict', 'sub', 'getitem', 'getattr', 'slots', 'property', 'class'])
    class D(dict): pass
    class G(object):
        def __getitem__(self, k): return d[k]
    class A(object):
        def __getattr__(self, n):
            if n in at: return at[n]
            raise AttributeError(n)
        def __getitem__(self, k): return d[k]
        def __contains__(self, k): return True
        def get(self, k, v=None): return 'get'
    class P(object):
        @property
        def a(self): return 'p:' + self.tag
        @property
        def b(self): raise AttributeError('b')
        def __getitem__(self, k): return d[k]
        tag = 'T'
    class K(object):
        a = 'K.a'
        __slots__ = ('b',)
        def __class_getitem__(cls, k): return d[k]
    d = {k1: 'k1', k2: 'k2', 'items': 'KI', 'get': 'KG'}
    at = {a1: 'a1', a2: 'a2'}
    if kind == 'dict': o, has = dict(d), {}
    elif kind in ('sub', 'getitem'):
        o = D(d) if kind == 'sub' else G()
        o.a, o.b = 'A', 'B'
        has = {'a': 'A', 'b': 'B'}
    elif kind == 'getattr': o, has = A(), at
    elif kind == 'property': o, has = P(), {'a': 'p:T'}
    elif kind == 'slots':
        o, has = K(), {'a': 'K.a'}
        if S.flag('set'):
            o.b = 'slot b'
            has['b'] = 'slot b'
    else: o, has = K, {'a': 'K.a'}
    if kind == 'slots': S.assume(use != 'c')
    form = S.choice('form', ['{o.%s}', '$o.%s', '{[o][0].%s!}'])
    if kind == 'class': S.assume(use != 'b')
    r = S.run(render_ctx, '/ ' + form % use + '\n', o=o)
    if use in has: S.check(r == ('ok', has[use] + '\n'), 'the attribute', lambda: '%s: %r expected %r' % (form % use, r, has[use]))
    else: S.check(r[0] == 'err' and isinstance(r[1], AttributeError), 'a missing attribute', lambda: '%s: %r' % (form % use, r))
    if kind in ('dict', 'sub', 'getitem', 'getattr', 'property', 'class'):
        r = S.run(render_ctx, '/ {o["' + use + '"]}\n', o=o)
        if use in d: S.check(r == ('ok', d[use] + '\n'), 'the item', lambda: '%r' % (r,))
        else: S.check(r[0] == 'err' and isinstance(r[1], KeyError), 'a missing item', lambda: '%r' % (r,))
    if kind in ('dict', 'sub'):
        S.eq(render_ctx('/ {len(list(o.items()))} {o["items"]} {o.get("get")}\n', o=o, len=len, list=list), '%d KI KG\n' % len(d), 'methods of a dict')
