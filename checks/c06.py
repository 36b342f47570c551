from checks.common import *

# Operands are terms of a free algebra: every operator builds a term that says which operator was applied to what, so that two
# expressions give equal terms only if they apply the same operators to the same operands in the same order. The truth value
# of a term is an unknown of the solver. The oracle is Python itself: it evaluates the same text.

class Ask(object):
    """Truth values by name, the same whenever asked."""
    def __init__(self, S): self.S, self.known = S, {}
    def bool(self, k):
        if k not in self.known: self.known[k] = self.S.bool(k)
        return self.known[k]

class Term(object):
    def __init__(self, S, t): self.S, self.t = S, t
    def __repr__(self): return 'T' + str(self.t)
    def __str__(self): return 'T' + str(self.t)
    def __hash__(self): return 1
    def __bool__(self): return True if self.S.bool('b' + str(self.t)) else False
    def __contains__(self, x): return True if self.S.bool('in' + str((plain(x), self.t))) else False
    def __neg__(self): return Term(self.S, ('neg', self.t))

def plain(x): return x.t if isinstance(x, Term) else repr(x)

def define(name, sym):
    def op(self, other): return Term(self.S, (sym, self.t, plain(other)))
    def rop(self, other): return Term(self.S, ('r' + sym, plain(other), self.t))
    setattr(Term, '__%s__' % name, op)
    setattr(Term, '__r%s__' % name, rop)

for name, sym in [('add', '+'), ('sub', '-'), ('mul', '*'), ('truediv', '/'), ('floordiv', '//'), ('mod', '%'), ('pow', '**'), ('lshift', '<<'),
                  ('rshift', '>>'), ('and', '&'), ('or', '|'), ('xor', '^'), ('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>='), ('eq', '=='), ('ne', '!=')]:
    define(name, sym)

ARITH = ['+', '-', '*', '/', '//', '%', '**', '<<', '>>', '&', '|', '^']
COMP  = ['<', '>', '<=', '>=', '==', '!=', '<>', 'in', 'not in', 'is', 'is not']
LOGIC = ['and', 'or']
OPS = ARITH + COMP + LOGIC
LEVELS = ['-', '%', '//', '**', '<<', '&', '|', '^', '<', 'in', 'is not', 'and', 'or']      # one or two of each level
TIGHT = ('*', '/', '//', '%', '**')

def word(op): return op[0].isalpha()

def glue(parts, ws):
    """Join operands and operators with the given whitespace; words always need some."""
    out = ''
    for i, p in enumerate(parts):
        sep = ws or (' ' if i and (word(p) or word(parts[i-1])) and not (parts[i-1] == '-' and i == 1) else '')
        out += (sep if i else '') + p
    return out

def python_text(parts):
    """The same in Python, with the documented deviation of the unary minus made explicit."""
    parts = ['!=' if p == '<>' else p for p in parts]
    if parts[0] == '-':
        n = 2
        while n < len(parts) and parts[n] in TIGHT: n += 2
        parts = ['-', '('] + parts[1:n] + [')'] + parts[n:]
    return ' '.join(parts)

def outcome(r):
    if r[0] == 'err': return ('err', type(r[1]).__name__)
    return ('ok', plain(r[1]))

def compare(S, text, oracle, env, what='value'):
    got = []
    env2 = dict(env); env2['out'] = got.append
    r = S.run(render_ctx, '$ out(%s)\n' % text, **env2)
    r = ('ok', got[0]) if r[0] == 'ok' and got else r
    w = S.run(eval, oracle, dict(env))
    S.observe('r', outcome(r))
    S.check(outcome(r) == outcome(w), what, lambda: '%s  [Python: %s]  got %r expected %r' % (text, oracle, r, w))

def names(S, n, alias=False):
    env, ask = {}, Ask(S)
    for k in 'abcd'[:n]: env[k] = Term(ask, k)
    if alias: env['c' if n > 2 else 'b'] = env['a']
    return env

@harness(quick=[{'first': k} for k in OPS], bounds='a OP b OP c for all pairs of operators, with and without unary minus or not in front, all truth values and memberships of all sub-terms; no, one or two spaces')
def pairs(S, first):
    op2 = S.choice('op2', OPS)
    pre = S.choice('pre', ['', '-', 'not'])
    ws = {'': ' ', '-': '', 'not': '  '}[pre]
    parts = ([pre] if pre else []) + ['a', first, 'b', op2, 'c']
    compare(S, glue(parts, ws), python_text(parts), names(S, 3, first in ('is', 'is not') and op2 in ('is', 'is not', '==', 'in')))

@harness(quick=[{'first': k} for k in LEVELS[:7]], thorough=[{'first': k, 'full': True} for k in OPS], bounds='a OP b OP c OP d over operators of every level (thorough: first operator any)')
def triples(S, first, full=False):
    ops = LEVELS if full else ['-', '//', '**', '&', '<', 'and', 'or']
    op2, op3 = S.choice('op2', ops), S.choice('op3', ops)
    parts = ['a', first, 'b', op2, 'c', op3, 'd']
    compare(S, glue(parts, ' '), python_text(parts), names(S, 4))

@harness(quick=[{}], thorough=[{'k': 3}], bounds='every operator with up to two (thorough: three) spaces or tabs before, inside and after it, also after not, in parentheses and at the ends of the expression')
def spacing(S, k=2):
    op = S.choice('op', OPS + ['not'])
    ws = lambda name, least=0: ''.join([S.char('%s%d' % (name, i), WS) for i in range(least + S.pick(name, k + 1 - least))])
    w = op[0].isalpha()
    inner = op.split(' ')
    o = inner[0] if len(inner) == 1 else inner[0] + ws('in', 1) + inner[1]
    if op == 'not': text, py = '(' + ws('p') + 'not' + ws('r', 1) + 'b' + ws('q') + ')', 'not b'
    else: text, py = ws('p') + 'a' + ws('l', 1 if w else 0) + o + ws('r', 1 if w else 0) + 'b' + ws('q'), 'a %s b' % ('!=' if op == '<>' else op)
    compare(S, text, py, names(S, 2))

@harness(quick=[{'form': k} for k in range(14)], bounds='parentheses, conditionals, negations with any operator of each level at every place')
def forms(S, form):
    op = S.choice('op', OPS)
    f, p = [('(a OP b) * c',)*2, ('a ** (b OP c)',)*2, ('-(a OP b)',)*2, ('(-a) OP b',)*2, ('not (a OP b)',)*2, ('not not a OP b',)*2,
         ('a OP b if c else d',)*2, ('a if b OP c else d',)*2, ('a if b else c OP d',)*2, ('a OP b if c', "a OP b if c else ''"),
         ('a if b else c if d OP a else b',)*2, ('(a if b else c) OP d',)*2, ('(a OP (b OP (c)))',)*2, ('a if not b OP c else not d OP a',)*2][form]
    pyop = '!=' if op == '<>' else op
    py = p.replace('OP', pyop)
    compare(S, f.replace('OP', op), py, names(S, 4))

@harness(quick=[{'place': k} for k in range(13)], bounds='an expression with one or two operators of each level at every place where the grammar takes one')
def places(S, place):
    a = ['-', '//', '**', '|', '<', 'not in', 'and', 'or']
    op, op2 = S.choice('op', a), S.choice('op2', a)
    e = 'a %s b %s c' % (op, op2)
    env = names(S, 3)
    env['cap'] = lambda x: plain(x)
    env['same'] = lambda *a, **k: (a[0] if a else k['x'])
    s = ['| {cap(E)}', '| x{cap(E)}', '$ x = E\n| {cap(x)}', '$ x = (E)\n| {cap(x)}', '| {cap((E))}', '| {cap(same(x = E))}', '| {cap([E][0])}', '| {cap((E,)[0])}', '| {cap({0: E}[0])}',
         '$ x, y = E, 1\n| {cap(x)}', '| {cap([0, E][1])}', '| {cap(same(E, 1))}', '| {"{cap(E)}"}'][place].replace('E', e)
    w = S.run(eval, e, dict(env))
    r = S.run(render_ctx, s, **env)
    if w[0] == 'err':
        S.check(r[0] == 'err', 'value in a place', lambda: '%s got %r expected %r' % (s, r, w)); return
    S.check(r[0] == 'ok' and r[1].strip() == ('x' if place == 1 else '') + esc(str(plain(w[1]))), 'value in a place', lambda: '%s got %r expected %r' % (s, r, w))

@harness(quick=[{'place': k} for k in range(6)], bounds='the same where only the truth or the text of the value shows')
def shown(S, place):
    a = ['-', '//', '**', '|', '<', 'not in', 'and', 'or']
    op, op2 = S.choice('op', a), S.choice('op2', a)
    e = 'a %s b %s c' % (op, op2)
    env = names(S, 3)
    s = ['if E:\n  | yes', 'if E\n  | yes', 'if 0\n  | no\nelif E\n  | yes', 'if (E) | yes', '| {E}', 'p | {E}'][place].replace('E', e)
    if place < 3 and op in ('|', '//'): return          # after a plain name they begin a text block
    w = S.run(eval, e, dict(env))
    if w[0] == 'err': return
    if place < 4: want = 'yes' if w[1] else ''
    else: want = ['', '<p>'][place - 4] + esc(str(w[1])) + ['', '</p>'][place - 4]
    got = render_ctx(s, **env).strip()
    S.check(got == want, 'value in a place', lambda: '%s got %r expected %r' % (s, got, want))

@harness(quick=[{'op': k} for k in ARITH + COMP[:-4] + LOGIC], bounds='integers from -3 to 5 (0 to 3 for shifts and powers), errors included')
def integers(S, op):
    small = op in ('**', '<<', '>>')
    a, b = S.int('a', -2 if small else -3, 5), S.int('b', -1 if small else -3, 3)
    env = {'a': a, 'b': b}
    if op == 'and' or op == 'or': forms = [('a OP b',)*2, ('not a OP b',)*2]
    else: forms = [('a OP b',)*2, ('-a OP b', '-(a OP b)' if op in TIGHT else '-a OP b')]
    for f, p in forms:
        got = []
        r = S.run(render_ctx, '$ out(%s)\n' % f.replace('OP', op), out=got.append, **env)
        if r[0] == 'ok': r = ('ok', got[0])
        w = S.run(PY[op], a, b)
        if w[0] == 'ok' and f != p: w = ('ok', -w[1])
        elif f != 'a OP b':
            w = S.run(PY[op], (not a) if f[0] == 'n' else -a, b)
        if w[0] == 'err': S.check(r[0] == 'err' and type(r[1]) is type(w[1]), 'error of an operator', lambda: '%s got %r expected %r' % (f, r, w))
        else: S.check(r[0] == 'ok' and r[1] == w[1] and isinstance(r[1], bool) == isinstance(w[1], bool), 'integer arithmetic', lambda: '%s %s got %r expected %r' % (f.replace('OP', op), env, r, w))

PY = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b,
      '**': lambda a, b: a ** b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b, '&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
      '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
      '<>': lambda a, b: a != b, 'and': lambda a, b: a and b, 'or': lambda a, b: a or b, 'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}

@harness(quick=[{'op': k} for k in ['+', '<', '>=', '==', '!=', 'in', 'not in', 'and', 'or']], thorough=[{'op': k, 'n': 3} for k in ['+', '<', '==', 'in', 'and']], bounds='strings of 0-2 characters of any kind on each side (thorough: 3)')
def strings(S, op, n=2):
    a, b = S.string('a', n, VAL), S.string('b', n, VAL)
    got = []
    render_ctx('$ out(a %s b)\n$ out((a) %s (b))' % (op, op), out=got.append, a=a, b=b)
    w = PY[op](a, b)
    S.check(got[0] == w and got[1] == w, 'operation on strings', lambda: '%r %s %r got %r expected %r' % (a, op, b, got, w))

@harness(quick=[{'i': i} for i in range(7)], bounds='operands of different kinds (int, str, list, None, float, bool) for every operator: the same value or the same kind of error')
def kinds(S, i):
    op = S.choice('op', [o for o in OPS if o != '<>'])
    a = [2, 'ab', [1], None, 1.5, True, {}][i]
    b = S.choice('b', [2, 'ab', [1], None, 1.5, True, {}])
    env = {'a': a, 'b': b}
    compare(S, 'a %s b' % op, 'a %s b' % op, env, 'value or error')

@harness(quick=[{}], bounds='a missing else: the empty string, whatever the condition is; nested conditionals')
def conditional(S):
    t = S.flag('t'); u = S.flag('u')
    got = []
    render_ctx("$ out(1 if t)\n$ out(1 if t else 2 if u)\n$ out(1 if t else 2 if u else 3)\n$ out((1 if u) if t else 4)\n$ out(0 if t and u)", out=got.append, t=t, u=u)
    want = [1 if t else '', 1 if t else 2 if u else '', 1 if t else 2 if u else 3, (1 if u else '') if t else 4, 0 if t and u else '']
    S.check(got == want, 'conditional', lambda: '%r %r' % (got, want))

class Odd(object):
    """Comparisons give objects without a truth value, like arrays do."""
    def __lt__(self, o): return 'less'
    def __eq__(self, o): return Vague()
    def __hash__(self): return 0
class Vague(object):
    def __bool__(self): raise ValueError('no truth value')

@harness(quick=[{}], bounds='an operand whose comparison gives an object without a truth value')
def odd(S):
    n = S.int('n', 0, 5)
    got = []
    r = S.run(render_ctx, '$ out(x < n)\n$ out(x == n)\n$ out(n + 1 > n)\n', out=got.append, x=Odd(), n=n)
    S.check(r[0] == 'ok' and got[0] == 'less' and isinstance(got[1], Vague) and got[2] is True, 'comparison of odd operands', lambda: '%r %r' % (r, got))

# operands that leave a trace: a call, an item, a member, a collection
MARKED = ['hh(%d)', 'gg[%d]', 'hh(x=%d)', '[hh(%d)][0]', 'hh(0+%d)']
SOME = ['-', '*', '**', '<<', '&', '<', '==', 'in', 'is', 'and', 'or']

class Items(object):
    def __init__(self, f): self.f = f
    def __getitem__(self, i): return self.f(i)

def traced(S, text, oracle, what):
    """The expression and its oracle give the same outcome and evaluate the same operands in the same order."""
    ask = Ask(S)
    def env(log):
        def f(x):
            log.append(x)
            return Term(ask, 'abcd'[x])
        return {'hh': f, 'gg': Items(f)}
    got, log, log2 = [], [], []
    e = env(log); e['out'] = got.append
    r = S.run(lambda: render_ctx('$ out(%s)\n' % text, **e))
    r = ('ok', got[0]) if r[0] == 'ok' and got else r
    w = S.run(eval, oracle, env(log2))
    S.observe('r', (outcome(r), log))
    S.check(outcome(r) == outcome(w) and log == log2, what, lambda: '%s  [Python: %s]  got %r expected %r; evaluated %r expected %r' % (text, oracle, r, w, log, log2))

@harness(quick=[{'first': k} for k in SOME], thorough=[{'first': k, 'ops': OPS} for k in OPS], bounds='a OP b OP c OP d over operators of every level, the operands being calls or items: each is evaluated as many times and in the same order as in Python')
def effects(S, first, ops=None):
    ops = ops or (COMP if first in COMP else SOME)
    m = S.choice('mark', MARKED[:2])
    op2 = S.choice('op2', ops)
    op3 = S.choice('op3', [op2, first])
    text = m % 0 + ' ' + first + ' ' + m % 1 + ' ' + op2 + ' ' + m % 2 + ' ' + op3 + ' ' + m % 3
    traced(S, text, text.replace('<>', '!='), 'operands evaluated')

@harness(quick=[{'form': k} for k in range(12)], bounds='conditionals, negations, calls, collections, indices, strings: operands evaluated as many times and in the same order as in Python')
def effects2(S, form):
    m = S.choice('mark', MARKED)
    a, b, c, d = [m % i for i in range(4)]
    op = S.choice('op', ['<', 'and', 'or', '-', '**', 'in'])
    t = ['A if B else C', 'A if B OP C else D', 'not A OP B', '(A, B, C)', '[A OP B, C]', '{1: A, 2: B OP C}[1]', 'str(A OP B)', '"%s" % (A OP B, C)' if 0 else '(A OP (B OP C))',
         '[A, B][C is None]', '-A OP B', '(A OP B) OP (C OP D)', 'max([A, B], key = id) is C' if 0 else 'len([A, B]) - A'][form]
    t = t.replace('OP', op).replace('A', a).replace('B', b).replace('C', c).replace('D', d)
    traced(S, t, t, 'operands evaluated')
