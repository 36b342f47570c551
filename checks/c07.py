from checks.common import *
from hypertag import Tag, TagFunction
from hypertag.core.errors import HError

HEAD = '''% H @b
  section
    @b
% F n
  div
    p
      | {f(n)}
% G @b n
  $ x = f(n)
  div
    @b
    | $x
'''

# bodies of alternatives; K is the number of the alternative, f(K) fails or not
BODIES = ['| =K {f(K)}', '| =K\np | {f(K)}', 'p\n  | =K\n  div\n    | {f(K)}\n  | end', 'H\n  | =K\n  p\n    | {f(K)}', 'F {K}', 'G K\n  p\n    | =K', 'p title={f(K)}\n  | =K',
          'for i in [1,2]\n  p | $i\n  div\n    | {g(K,i)}', 'if f(K)==""\n  | =K', 'div : p : H\n  | {f(K)}\n  | =K', '/ <i>=K {f(K)}</i>', '$ x = f(K)\n| =K $x', 'p\n\n  div\n\n    | =K\n    | {f(K)}',
          '.\n  H | =K {f(K)}', '< p\n  | {f(K)}', 'while more(K)\n  H\n    | {f(K)}', 'fun\n  p\n    | {f(K)}', 'dom\n  p\n    | {f(K)}', 'div\n  pass\n  | {f(K)}']

class World(object):
    def __init__(self, fails, kind=KeyError):
        self.fails, self.kind, self.log, self.times = fails, kind, [], {}
    def f(self, k):
        self.log.append(k)
        if self.fails.get(k): raise self.kind('x%s' % k)
        return ''
    def g(self, k, i):
        if i == 2: return self.f(k)
        return ''
    def more(self, k):
        self.times[k] = self.times.get(k, 0) + 1
        return self.times[k] % 3 != 0
    def ctx(self):
        return {'f': self.f, 'g': self.g, 'more': self.more, 'box': ['a']}

class Dom(Tag):
    """External tag that gets the body as DOM."""
    def expand(self, body, attrs, kwattrs): return '[%s]' % body.render()

def fun(body, *a): return '<fun>%s</fun>' % body

def go(world, script, **more):
    tags = {'fun': TagFunction(fun), 'dom': Dom()}
    ctx = dict(world.ctx(), **more)
    return HyperHTML().render('context %fun, %dom, ' + ', '.join(['$' + k for k in ctx]) + '\n' + script, __tags__=tags, **ctx)

def indent(s, ind):
    return '\n'.join([ind + l if l else l for l in s.split('\n')])

def block(heads, bodies, ind=''):
    return ''.join(['%s%s\n%s\n' % (ind, h, indent(b, ind + '  ')) for h, b in zip(heads, bodies)])

AROUND = [('', ''), ('| before\n', ''), ('div\n', '  '), ('| a\n\n', ''), ('div\n  | a\n\n  H\n    p | q\n', '    '), ('for i in [1,2]\n  p | $i\n', '  '), ('< div\n', '  ')]
AFTER = '| after\n\ndiv\n  p | x\n  H\n    | y\n'

def decide(S, bodies, around=0, after=True, deep=True, what='alternatives'):
    fails = {}
    for i in range(len(bodies)): fails[i + 1] = S.flag('f%d' % (i + 1))
    pre, ind = AROUND[around]
    n = len(bodies)
    bodies = [b.replace('K', str(i + 1)) for i, b in enumerate(bodies)]
    tail = indent(AFTER, ind) if after else ''
    s = HEAD + pre + block(['try'] + ['else'] * (n - 1), bodies, ind) + tail
    win = [i for i in range(n) if not fails[i + 1]]
    want = HEAD + pre + (block(['if 1'], [bodies[win[0]]], ind) if win else block(['if 0'], ['| no'], ind)) + tail
    a = S.run(go, World(fails), s)
    b = S.run(go, World(fails), want)
    S.check(a[0] == 'ok' and b[0] == 'ok' and a[1] == b[1], what, lambda: '\n%s\n fails %r\n got %r\n expected %r' % (s[len(HEAD):], fails, a, b))

@harness(quick=[{'around': i} for i in (0, 3, 4)], thorough=[{'around': i, 'n': 6} for i in range(len(AROUND))], bounds='a try block with one or two alternatives of every kind, failing or not, at seven places of a document')
def two(S, around, n=3):
    a = S.choice('a', BODIES)
    b = S.choice('b', ([None] + BODIES[2:])[:n])
    decide(S, [a] + ([b] if b else []), around)

@harness(quick=[{'a': i} for i in range(0, len(BODIES), 2)], thorough=[{'a': i, 'around': k} for i in range(len(BODIES)) for k in (1, 2, 4)], bounds='three and four alternatives')
def more(S, a, around=3):
    bodies = [BODIES[a], S.choice('b', [BODIES[3], BODIES[7], BODIES[4]]), S.choice('c', [BODIES[2], BODIES[12]])]
    if S.flag('four'): bodies.append(BODIES[0])
    decide(S, bodies, around)

@harness(quick=[{'b': 1, 'n': 9}, {'b': 2, 'n': 9}], thorough=[{'b': i} for i in range(4)], bounds='try blocks inside alternatives of try blocks and inside bodies of tags and loops, failures inside and outside')
def nested(S, b, n=99):
    inner = S.choice('i', BODIES[:n])
    f1, f2, f3 = S.flag('f1'), S.flag('f2'), S.flag('f3')
    inner = inner.replace('K', '1')
    other = [BODIES[0], BODIES[2], BODIES[3], BODIES[7]][b].replace('K', '2')
    outer = '| =3\np\n  | {f(3)}'
    world = {1: f1, 2: f2, 3: f3}
    form = S.choice('form', ['first', 'tag', 'hyper'])
    block1 = {'first': lambda x: x, 'tag': lambda x: 'div\n' + indent(x, '  '), 'hyper': lambda x: 'H\n' + indent(x, '  ')}[form]
    s = HEAD + 'try\n' + indent(block1(block(['try', 'else'], [inner, other]) + outer), '  ') + '\nelse\n  | last\n' + AFTER
    if f3: body = '| last'
    else:
        # the inner block gives its first alternative that does not fail, and nothing if both fail
        pick = block(['if 1'], [inner]) if not f1 else block(['if 1'], [other]) if not f2 else block(['if 0'], ['| no'])
        body = block1(pick + outer)
    want = HEAD + 'if 1\n' + indent(body, '  ') + '\n' + AFTER
    x, y = S.run(go, World(world), s), S.run(go, World(world), want)
    S.check(x[0] == 'ok' and y[0] == 'ok' and x[1] == y[1], 'nested try', lambda: '\n%s\n %r\n got %r\n expected %r' % (s, world, x, y))

SHORT = ['?p | =1 {f(1)}', '? p\n  | =1\n  div\n    | {f(1)}', '?H : p | {f(1)}', '?F 1', '?| =1 {f(1)}', '?\n  | =1\n  p | {f(1)}', '?:\n  | =1\n  H\n    | {f(1)}', '?/ =1 {f(1)}', '? G 1 : p | =1', '?@body({f(1)})']
@harness(quick=[{'around': i} for i in range(len(AROUND))], bounds='the short form of try with every kind of block')
def short(S, around):
    form = S.choice('s', SHORT[:-1])
    fail = S.flag('f')
    pre, ind = AROUND[around]
    long = form[1:].lstrip(' ')
    if long[:1] == ':': long = long[1:]
    if long[:1] == '\n': long = long[1:]
    else: long = indent(long, '  ')
    s = HEAD + pre + indent(form, ind) + '\n' + indent(AFTER, ind)
    want = HEAD + pre + indent(('if 0\n  | no' if fail else 'if 1\n' + long), ind) + '\n' + indent(AFTER, ind)
    x, y = S.run(go, World({1: fail}), s), S.run(go, World({1: fail}), want)
    # a nested body on separate lines differs from an inline one in layout only
    S.check(x[0] == 'ok' and y[0] == 'ok' and x[1].replace('\n', '').replace(' ', '') == y[1].replace('\n', '').replace(' ', ''), 'short try', lambda: '\n%s\n fails %r\n got %r\n expected %r' % (s[len(HEAD):], fail, x, y))
    # layout of what follows and precedes
    S.check(x[0] == 'ok' and y[0] == 'ok' and x[1].split('after')[1] == y[1].split('after')[1] , 'layout after a short try', lambda: '\n%s\n fails %r\n got %r\n expected %r' % (s[len(HEAD):], fail, x, y))

class Mine(Exception): pass
class Stop(BaseException): pass

@harness(quick=[{}], bounds='every kind of exception: those derived from Exception are contained, others are not')
def exceptions(S):
    kind = S.choice('kind', [KeyError, ValueError, TypeError, Mine, HError, StopIteration, AssertionError, AttributeError, NameError, RuntimeError, KeyboardInterrupt, SystemExit, GeneratorExit, Stop, MemoryError, UnicodeError, ImportError, LookupError])
    where = S.choice('w', BODIES).replace('K', '1')
    fail = S.flag('f')
    try: r = ('ok', go(World({1: fail}, kind), HEAD + block(['try', 'else'], [where, '| other'])))
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit, Stop) as ex: r = ('err', ex)
    if not fail: S.check(r[0] == 'ok' and 'other' not in r[1], 'no failure', lambda: '%r' % (r,))
    elif issubclass(kind, Exception): S.check(r[0] == 'ok' and r[1].strip() == 'other', 'exception contained', lambda: '%s %r %r' % (where, kind, r))
    else: S.check(r[0] == 'err' and isinstance(r[1], kind), 'not caught', lambda: '%s %r %r' % (where, kind, r))

FAIL = ['| {1/0}', '| {None}', '| {[1][2]}', '| {"a".b}', '| {u}', '| {u.x}', 'F', 'F 1 2', 'F m=1', 'H b=3', '@ 5', '| {""!}', 'p x={0!}', '| {5(1)}', '$ a, b = 1, 2, 3', '$ u += 1', 'for a, b in [1]\n  | x', 'for a in 5\n  | x', 'F 1\n  p', '| {"a" (None)}']
@harness(quick=[{}], bounds='run-time errors detected by Hypertag itself and by Python')
def errors(S):
    i = S.pick('i', len(FAIL))
    around = S.pick('a', 3)
    deep = S.flag('deep')
    if FAIL[i] in ('void\n  p'): return
    bad = FAIL[i] if not deep else 'p\n  H\n    div\n' + indent(FAIL[i], '      ')
    pre, ind = AROUND[around]
    zero = S.int('z', 0, 1)
    head = HEAD + 'if z\n  $ u = 1\n'
    s = head + pre + block(['try', 'else'], [bad, '| =other'], ind) + indent(AFTER, ind)
    w = head + pre + block(['if 1'], ['| =other'], ind) + indent(AFTER, ind)
    S.assume(not zero or 'u' not in FAIL[i])
    x, y = S.run(go, World({}), s, z=zero), S.run(go, World({}), w, z=zero)
    S.check(x[0] == 'ok' and y[0] == 'ok' and x[1] == y[1], 'error contained', lambda: '\n%s\n got %r\n expected %r' % (s[len(HEAD):], x, y))

class Fail(Exception): pass

class Q(object):
    """Behaviour of operands: raise, a false value or a true one."""
    def __init__(self, S): self.S, self.how = S, {}
    def get(self, name):
        if name not in self.how:
            self.how[name] = self.S.choice(name, ['raise', '', 0, 'yes', 7, None])
        v = self.how[name]
        if v == 'raise' and isinstance(v, str): raise Fail(name)
        return v

def opt(f):
    try: v = f()
    except Exception: return ''
    return v if v else ''
def must(f):
    v = f()
    if not v: raise Fail('false')
    return v

FORMS = [
    ('x()?',             lambda x, y: opt(x)),
    ('x()!',             lambda x, y: must(x)),
    ('(x())?',           lambda x, y: opt(x)),
    ('(x()?)!',          lambda x, y: must(lambda: opt(x))),
    ('(x()!)?',          lambda x, y: opt(lambda: must(x))),
    ('[x()?, y()]',      lambda x, y: [opt(x), y()]),
    ('[x(), y()?]',      lambda x, y: [x(), opt(y)]),
    ('[x(), y()]?',      lambda x, y: opt(lambda: [x(), y()])),
    ('x()? or y()',      lambda x, y: opt(x) or y()),
    ('x() or y()?',      lambda x, y: x() or opt(y)),
    ('x()? or y()!',     lambda x, y: opt(x) or must(y)),
    ('(x() or y())!',    lambda x, y: must(lambda: x() or y())),
    ('x()! and y()?',    lambda x, y: must(x) and opt(y)),
    ('not x()?',         lambda x, y: not opt(x)),
    ('x()? == y()?',     lambda x, y: opt(x) == opt(y)),
    ('x() == y()?',      lambda x, y: x() == opt(y)),
    ('1 if x()? else y()', lambda x, y: 1 if opt(x) else y()),
    ('x()? if y() else 2', lambda x, y: opt(x) if y() else 2),
    ('x()! if y()? else 2', lambda x, y: must(x) if opt(y) else 2),
    ('same(x()?)',       lambda x, y: opt(x)),
    ('same(x())?',       lambda x, y: opt(x)),
    ('same(same(x()?), k=y()!)', lambda x, y: (opt(x), must(y))[0]),
    ('x().real?',        lambda x, y: opt(lambda: x().real)),
    ('x()[0]?',          lambda x, y: opt(lambda: x()[0])),
    ('[x().real?, 1]',   lambda x, y: [opt(lambda: x().real), 1]),
    ('(x()? y()?)',      None),
    ('x()? : same',      lambda x, y: opt(x)),
    ('x() : same(k=y()?)', lambda x, y: (x(), opt(y))[0]),
    ('(x() : same)?',    lambda x, y: opt(x)),
    ('{"k": x()?}["k"]', lambda x, y: opt(x)),
    ('(x()?, y()!)',     lambda x, y: (opt(x), must(y))),
    ('(x(), y()!)?',     lambda x, y: opt(lambda: (x(), must(y)))),
    ('"abc"[x()?:y()?]', lambda x, y: "abc"[opt(x):opt(y)]),
    ('-1 - x()?',        lambda x, y: -1 - opt(x)),
    ('2 * x()! + 1',     lambda x, y: 2 * must(x) + 1),
    ('(-x())?',          lambda x, y: opt(lambda: -x())),
    ('x()? in y()?',     lambda x, y: opt(x) in opt(y)),
]
FORMS = [f for f in FORMS if f[1]]

@harness(quick=[{'form': i} for i in range(len(FORMS))], bounds='qualifiers on sub-expressions of every kind, two operands that raise or give any of five values')
def qualifiers(S, form):
    text, ref = FORMS[form]
    q = Q(S)
    x, y = (lambda: q.get('x')), (lambda: q.get('y'))
    got = []
    def same(v, k=0): return v
    r = S.run(render_ctx, '$ out(%s)\n' % text, out=got.append, x=x, y=y, same=same)
    w = S.run(ref, x, y)
    if w[0] == 'err': S.check(r[0] == 'err' and (isinstance(r[1], Exception)) and not got, 'error of an expression', lambda: '%s %r got %r %r expected %r' % (text, q.how, r, got, w))
    else: S.check(r[0] == 'ok' and got == [w[1]] and type(got[0]) is type(w[1]), 'qualified expression', lambda: '%s %r got %r %r expected %r' % (text, q.how, r, got, w))

MARKED = [('| a{x()}Qb', 'a', 'b'), ('| a{x()Q}b', 'a', 'b'), ('| {x()Q}', '', ''), ('| $vQ.', '', '.'), ('| a$o.vQ b', 'a', ' b'), ('| $l[0]Q', '', ''), ('| {x() }Q', '', ''), ('/ {x()}Q', '', ''), ('| ${x()}', None, None),
          ('| {"a{x()}Qb"}', 'a', 'b'), ("| {'$vQ'}", '', ''), ('$ w = x()Q\n| a$w', 'a', ''), ('| $x()Q', '', ''), ('i | {x()}Q', '<i>', '</i>'), ('i title={x()}Q', None, None), ('if 1 | {x()}Q', '', '')]
MARKED = [m for m in MARKED if m[1] is not None]

@harness(quick=[{'form': i} for i in range(len(MARKED))], bounds='qualifiers of embeddings in text, strings, attributes; values: symbolic text of 0-2 characters, a number, or an error')
def marks(S, form):
    s, pre, post = MARKED[form]
    mark = S.choice('mark', ['?', '!', ''])
    kind = S.choice('kind', ['text', 'zero', 'raise', 'one'])
    v = {'text': lambda: S.string('t', 2, UPPER), 'zero': lambda: 0, 'one': lambda: 5, 'raise': lambda: None}[kind]()
    fail = kind == 'raise'
    def x():
        if fail: raise Fail()
        return v
    class O(object): pass
    o = O(); l = []
    if not fail: o.v = v; l.append(v)
    s = s.replace('Q', mark)
    ctx = {'x': x, 'o': o, 'l': l, 'ok': 0 if fail else 1, 'val': v}
    r = S.run(render_ctx, 'if ok\n  $ v = val\n' + s, **ctx)
    if fail: want = '' if mark == '?' else None
    elif v: want = str(v)
    else: want = '' if mark == '?' else None if mark == '!' else str(v)
    if want is None: S.check(r[0] == 'err' and isinstance(r[1], Exception), 'failing expression', lambda: '%r got %r' % (s, r))
    else: S.check(r[0] == 'ok' and r[1].strip() == (pre + want + post).strip(), 'marked expression', lambda: '%r %r got %r expected %r' % (s, v, r, pre + want + post))
    # an obligatory value inside a try block selects the next alternative
    t = S.run(render_ctx, 'if ok\n  $ v = val\ntry\n' + indent(s, '  ') + '\nelse\n  | other', **ctx)
    S.check(t[0] == 'ok' and t[1].strip() == ('other' if want is None else (pre + want + post).strip()), 'in a try block', lambda: '%r got %r' % (s, t))
