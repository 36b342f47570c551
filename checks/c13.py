from checks.common import *
from checks.c12 import Mem, HyLoader, PyLoader
from checks.domtree import dump
from hypertag import Tag, TagFunction, DOM
from hypertag.core.errors import HError

MODULES = {'m': '$x = "mx"\n% H @b a=x\n  $y = a\n  if b\n    $y = y + "+"\n  p | H$y\n  @b\n', 'n': 'from m import %H as K, $x\n$L = [1]\n% J n\n  for i in range(n)\n    $q = i\n  | J$q$x\n  K {n}\n', 'boom': '$x = 1\n| {1/0}\n',
           'late': '% B @b v\n  div\n    @b\n    | {1/v}\n'}

def tagf(f, name):
    f.__name__ = name
    return TagFunction(f)

def ctx(v):
    return dict(v=v, items=[v, 'k'], d={'a': v}, fun=lambda a, b='.': a + b)

def e(v): return esc(v)
# script, expected output for the value v of one or two characters (None: an error)
SCRIPTS = [
    ('context $v\n| a $v\n', lambda v: 'a ' + e(v) + '\n'),
    ('context $v\n% H @b x={v}\n  p title=x | $x\n    \n  @b\nH\n  | i\nH "q"\n'.replace('    \n', ''), None),
    ('context $v, $items\nfor i in items\n  $z = i\n  div\n    p | $i\n| $z\n', lambda v: '<div>\n  <p>%s</p>\n</div>\n<div>\n  <p>k</p>\n</div>\nk\n' % e(v)),
    ('context $v\nfrom m import %H, $x\nH\n  | $v\nH "w"\n| $x\n', lambda v: '<p>Hmx+</p>\n' + e(v) + '\n<p>Hw</p>\nmx\n'),
    ('context $v\nfrom n import *\nJ 2\n| $x $len(L)\n$v = v + "1"\n| $v\n', lambda v: 'J1mx\n<p>H2</p>\nmx 1\n' + e(v) + '1\n'),
    ('context $v\ntry\n  div\n    p\n      | $v\n      | {1/0}\nelse\n  | $v\n\nb : i | $v\n', lambda v: e(v) + '\n\n<b><i>' + e(v) + '</i></b>\n'),
    ('context $v, $fun\n% G @b\n  @b\n  div\n    @b[0]\nG\n  p\n    | {fun(v)}\n  i | x\n', lambda v: '<p>\n  %s.\n</p>\n<i>x</i>\n<div>\n  <p>\n    %s.\n  </p>\n</div>\n' % (e(v), e(v))),
    ('context $v\n$n = 0\nwhile n < 2\n  $n += 1\n  / $n$v\n! $v\n', lambda v: '1' + v + '\n2' + v + '\n$v\n'),
    ('context $v\n% F x y=[]\n  $ y.append(x)\n  | $len(y)\nF 1\nF 2\n| $v\n', lambda v: '1\n1\n' + e(v) + '\n'),
    ('context $v, $d\n| {d["a"]} {v : lower}\ndedent | $v\n', None),
]
FAILING = [
    'context $v\n| {\n', 'context $v\ndiv\n p\n   | $v\n  | x\n', 'context $v\n| $undefined\n', 'context $v\nundefinedtag\n', 'context $v\ndiv\n  p\n    ul\n      | {1/0}\n', 'context $v\n% H @b\n  div\n    @b\nH\n  p\n    | $v {v.nope}\n',
    'context $v\nfrom boom import $x\n| $x\n', 'context $v\nfrom m import %H\nH "1" "2" "3"\n', 'context $v\nfrom late import %B\nB 0\n  | $v\n', 'context $v\nbr | text\n', 'context $v\nfrom nowhere import $x\n', 'context $v, $missing\n| x\n',
    'context $v\n| ' + '\u2768' + ' {\n', 'context $v\n$v, q = [1]\n', 'context $v\nfor v in 5\n  p | $v\n',
]

def expected(i, v):
    s, f = SCRIPTS[i]
    if f: return f(v)
    if i == 1: return '<p title="%s">%s</p>\ni\n<p title="q">q</p>\n' % (v, v)
    return v + ' ' + v.lower() + '\n' + v + '\n'

SAFE = [1, 9]           # scripts whose reference is written for values without special characters
def value(S, i, name): return S.text(name, 1, LOWER if i in SAFE else CH - WS)
def run(S, rt, i, v):
    c = ctx(v)
    return S.run(rt.render, SCRIPTS[i][0], **{k: c[k] for k in ('v', 'items', 'd', 'fun')})

def runtime(): return HyperHTML([Mem(MODULES), HyLoader, PyLoader])

def good(S, r, i, v, what, hist):
    S.check(r[0] == 'ok' and r[1] == expected(i, v), what, lambda: 'after %r\n%s got %r expected %r' % (hist, SCRIPTS[i][0], r, expected(i, v)))

@harness(quick=[{'i': i} for i in range(len(SCRIPTS))], thorough=[{'i': i, 'n': 3} for i in range(len(SCRIPTS))],
         bounds='each of ten scripts after each of the ten scripts and fifteen failing ones (thorough: after each pair), on the same instance, values of one symbolic character')
def sequence(S, i, n=2):
    rt = runtime()
    hist = []
    v = value(S, i, 'v')
    for k in range(n - 1):
        j = S.pick('j%d' % k, len(SCRIPTS) + len(FAILING))
        if j < len(SCRIPTS):
            w = value(S, j, 'w%d' % k)
            r = run(S, rt, j, w)
            good(S, r, j, w, 'earlier rendering', hist)
        else:
            c = ctx('w')
            r = S.run(rt.render, FAILING[j - len(SCRIPTS)], v=c['v'])
            S.check(r[0] == 'err', 'failing script fails', lambda: '%s %r' % (FAILING[j - len(SCRIPTS)], r))
        hist.append(j)
    good(S, run(S, rt, i, v), i, v, 'rendering after others', hist)

@harness(quick=[{}], bounds='the same failing script renders to the same error again; a repaired context makes it succeed')
def failing_again(S):
    s = S.choice('s', FAILING)
    rt = runtime()
    a = S.run(rt.render, s, v='a')
    b = S.run(rt.render, s, v='b')
    S.check(a[0] == 'err' and b[0] == 'err' and type(a[1]) is type(b[1]) and (a[1].args == b[1].args or not isinstance(a[1], HError)), 'same error', lambda: '%s %r %r' % (s, a, b))
    c = S.run(runtime().render, s, v='a')
    S.check(c[0] == 'err' and type(a[1]) is type(c[1]), 'same error on a new instance', lambda: '%s %r %r' % (s, a, c))
    x = S.int('x', 0, 2)
    for rt in (rt, runtime()):
        r = [S.run(rt.render, 'context $v\nfrom late import %B\nB v\n  div\n    | q\n| {1/v}\n', v=k) for k in (0, 1, x, 1)]
        S.check(r[0][0] == 'err' and r[1][0] == 'ok' and r[3] == r[1] and (r[2][0] == 'err') == (x == 0), 'failure depends on the value only', lambda: '%r' % (r,))

@harness(quick=[{'i': i} for i in range(len(SCRIPTS))], bounds='each script twice on one instance, then on another one, with different values; translate() and repeated rendering of its DOM with selections, copies and skips in between')
def repeated(S, i):
    rt = runtime()
    v, w = value(S, i, 'v'), value(S, i, 'w')
    good(S, run(S, rt, i, v), i, v, 'first', [])
    good(S, run(S, rt, i, w), i, w, 'second', [i])
    good(S, run(S, runtime() if S.flag('new') else rt, i, v), i, v, 'third', [i, i])
    c = ctx(v)
    m = rt.translate(SCRIPTS[i][0], **c)
    want = expected(i, v)
    before = dump(DOM(m.dom))
    outs = [m.dom.render()]
    kind = S.choice('between', ['none', 'copy', 'select', 'walk', 'skip', 'tree', 'other'])
    if kind == 'copy': outs.append(m.dom.copy().render())
    elif kind == 'select': [n.render() for n in DOM(m.dom).select('p')]
    elif kind == 'walk': [n.render() for n in m.dom.walk() if n is not m.dom]
    elif kind == 'skip': DOM(m.dom).skip('p').render()
    elif kind == 'tree': m.dom.tree()
    elif kind == 'other': rt.translate(SCRIPTS[i][0], **ctx(w)).dom.render()
    outs.append(m.dom.render())
    outs.append(m.dom.render())
    S.check(all([o == want for o in outs]), 'DOM rendered repeatedly', lambda: '%s %s %r expected %r' % (SCRIPTS[i][0], kind, outs, want))
    S.check(dump(DOM(m.dom)) == before, 'rendering does not modify the DOM', '')

class Obj(object):
    def __init__(self): self.a, self.log = [1, 2], []
    def m(self, *a): return len(a)

USES = ['| $x', 'for i in x\n  | $i', '$y = x\n$y = [3]\n| $y', '% H @b k=x\n  | $k\nH\nH {x}\nH k=x', '| {len(x)} {x[0]} {x[0:1]}', '$a, b = x\n$a = 7\n| $a$b', 'for a, b in [x]\n  $a = 9\n  | $a', 'p title={x} | $x', '$y = x\n$y = y + y\n| $len(y)', '| {x and x or x} {x if x else x} {not x} {x == x} {1 in x}',
        'for i in x\n  for j in x\n    | $i$j', '$y = [x, x]\n$y[0]? \n'.replace('$y[0]? \n', '| {y[0]} {y[1]}'), '| {sorted(x)} {x : list : sorted}', 'from m import %H\nH {x}', 'try\n  | {x.nope}\nelse\n  | {x}', '{x}? | a'.replace('{x}? | a', 'p title={x}? | a'), 'while len(x) < 1\n  | q', '$y = {x}?\n| $y'.replace('{x}?', '(x)?'), 'for i, t in enumerate(x)\n  $i = 5\n  $t = 6\n  | $i', '$x = 5\n| $x', '$ y = x + [4]\n| $len(y)', 'div a=x b=x | q']
@harness(quick=[{}], bounds='22 uses of a list (symbolic elements), in which the script never modifies the list itself; the dicts of variables and tags passed in')
def objects(S):
    s = S.choice('use', USES)
    a, b = S.int('a', 0, 5), S.text('b', 1, LOWER)
    x = [a, a + 1]
    snap = list(x)
    tags = {'t': tagf(lambda body: body, 't')}
    d = {'x': x, 'b': b}
    rt = runtime()
    m = 'context $x, $b, %t\n' + s + '\n| $b\nt | z\n'
    r = S.run(rt.render, m, __tags__=tags, **d)
    S.check(x == snap and len(d) == 2 and d['x'] is x and list(tags) == ['t'], 'context is not modified', lambda: '%s %r %r' % (s, x, d))
    q = S.run(rt.render, m, __tags__=tags, **d)
    S.check(r[0] == q[0] and (r[0] == 'err' or r[1] == q[1]), 'same result again', lambda: '%s %r %r' % (s, r, q))
    S.check(r[0] == 'ok', 'rendered', lambda: '%s %r' % (s, r))

@harness(quick=[{}], bounds='declarations of one script (variables, tags, built-in names overridden, imports) do not reach the next one; three symbolic names')
def no_leak(S):
    rt = runtime()
    ab = RangeSet.of('ab')
    n, t, u = S.text('n', 1, ab) + 'z', S.text('t', 1, ab) + 'z', S.text('u', 1, ab) + 'z'
    first = S.choice('first', ['$%s = 1\n' % n, '%% %s | x\n' % t, '$len = 1\n% div | mine\n% inline | mine\n$upper = 2\ndiv\n', 'from m import $x as %s, %%H as %s\n' % (n, t), 'context $v as %s\n' % n, 'if 1\n  $%s = 1\nfor %s in [1]\n  $len = 5\n' % (n, n), '$%s = 1\n| {1/0}\n' % n])
    S.run(rt.render, first, v=1)
    r = S.run(rt.render, '| $%s\n' % u)
    S.check(r[0] == 'err' and isinstance(r[1], HError), 'variable of another script', lambda: '%s %s %r' % (first, u, r))
    r = S.run(rt.render, '%s : Q\n' % u)
    S.check(r[0] == 'err' and isinstance(r[1], HError), 'tag of another script', lambda: '%s %s %r' % (first, u, r))
    r = S.run(rt.render, '| {len("abc")} {upper("x")}\ndiv | y\ninline | z\n')
    S.check(r == ('ok', '3 X\n<div>y</div>\nz\n'), 'built-in symbols', lambda: '%s %r' % (first, r))
    r = S.run(runtime().render, '| {len("abc")} {upper("x")}\ndiv | y\ninline | z\n')
    S.check(r == ('ok', '3 X\n<div>y</div>\nz\n'), 'built-in symbols of another instance', lambda: '%s %r' % (first, r))

HYPER = ['% H @b a=[]\n  $ a.append(1)\n  | $len(a)\n', '% H @b n={dict(k=0)}\n  $ n.update(k=n["k"]+1)\n  | {n["k"]}\n', '% H @b\n  $c = 0\n  if b\n    $c = c + 1\n  | $c\n', '% H @b a={nn()}\n  | $a\n', '% H @b q=1\n  for i in [1,2]\n    $q += i\n  | $q\n']
@harness(quick=[{}], bounds='five hypertags whose default values or local variables could keep state, used one to three times, in two renderings, local or imported')
def hypertag_state(S):
    k = S.pick('h', len(HYPER))
    n = 1 + S.pick('n', 3)
    body = S.flag('body')
    calls = []
    def nn():
        calls.append(1)
        return len(calls)
    use = 'H\n' + ('  pass\n' if body else '')
    local = S.flag('local') or k == 3
    s = ('context $nn\n' + HYPER[k] if local else 'context $nn\nfrom h import %H\n') + use * n
    rt = HyperHTML([Mem({'h': HYPER[k]}), HyLoader, PyLoader])
    one = ['1', '1', '0', None, '4'][k]
    for j in range(2):
        r = S.run(rt.render, s, nn=nn)
        want = ''.join([(one if one is not None else str(j * n + i + 1)) + '\n' for i in range(n)])
        S.check(r[0] == 'ok' and r[1] == want, 'each use on its own', lambda: '%s %r expected %r' % (s, r, want))

TEXTS = ['x', '\u2768', '\u2769', '\u276b', '\u276c', '\u276d', '\u2768\u276c', '\u2768\u2769', '\u2768\u2769\u276a\u276b', '\u2768\u276c\u276e', '\u276f\u2768', '\u2770']
@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='two (thorough: three) renderings one after the other, on one instance or several, of scripts whose text contains any of twelve combinations of the characters used internally to encode indentation and of those used instead of them')
def special(S, n):
    rt = HyperHTML()
    hist = []
    for k in range(n):
        t = S.choice('t%d' % k, TEXTS)
        c = S.char('c%d' % k, LOWER)
        r = S.run((rt if not k or S.flag('same%d' % k) else HyperHTML()).render, 'p\n  | %s\n      %s\n    q%s\n  b | %s\n' % (t, c, c, t))
        want = '<p>\n  %s\n  %s\n  q%s\n  <b>%s</b>\n</p>\n' % (t, '  ' + c, c, t)
        S.check(r[0] == 'ok' and r[1] == want, 'special characters after others', lambda: '%r %r %r expected %r' % (hist, t, r, want))
        hist.append(t)

@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='two (thorough: three) renderings with any of four files and packages, with or without a context variable, failing or not: a script sees only what it was given')
def environment(S, n):
    rt = runtime()
    given = []
    s = '| <{str(__file__)}> <{str(__package__)}> <{len("ab")}>\n'
    def args(k):
        d = {}
        f, p = S.choice('f%d' % k, [None, '/nowhere/a.hy', '/nowhere/b/c.hy']), S.choice('p%d' % k, [None, 'pkg', 'pkg.sub'])
        if f: d['__file__'] = f
        if p: d['__package__'] = p
        return d
    for k in range(n):
        d = args(k)
        kind = S.choice('kind%d' % k, ['show', 'none', 'fail', 'over', 'import']) if k < n - 1 else 'show'
        script = {'show': s, 'none': 'p | x\n', 'fail': '| {1/0}\n', 'over': '$__file__ = "mine"\n$ len = 5\n| {__file__}\n', 'import': 'from m import %H\nH\n'}[kind]
        r = S.run(rt.render, script, **d)
        if kind == 'show':
            q = S.run(runtime().render, script, **d)
            S.check(r[0] == 'ok' and q == r, 'the same as on a new instance', lambda: '%r: %r expected %r' % (given, r, q))
            S.check(d.get('__file__', '') in r[1] and d.get('__package__', '') in r[1] and ('nowhere' in r[1]) == ('__file__' in d) and ('pkg' in r[1]) == ('__package__' in d), 'what was given', lambda: '%r: %r' % (given, r))
        given.append((kind, d))
