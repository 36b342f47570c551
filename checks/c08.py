from checks.common import *
from hypertag.core.errors import HError

NAMES = RangeSet.of('abcdq')                                  # names given at the place of use; q is the body attribute, d is never declared

def define(spec, body):
    """Source of a definition: spec is a list of (name, has default)."""
    s = '% H' + (' @q' if body else '')
    for name, default in spec: s += ' ' + name + ('={d("%s")}' % name if default else '')
    s += '\n  |' + ''.join([' =%s:{cap("%s", %s)}' % (n, n, n) for n, _ in spec]) + ' =end\n'
    if body: s += '  @q\n'
    return s

def bind(spec, body, pos, named):
    """Reference: the values of attributes, in a dict, or None if the arguments do not match."""
    if len(pos) > len(spec): return None
    got = {}
    for (n, _), v in zip(spec, pos): got[n] = v
    names = [n for n, _ in spec]
    given = {}
    for n, v in named:
        if n == 'q' and body: return None
        if n not in names: return None
        given[n] = given[n] + ' ' + v if n in given else v       # an attribute given several times: documented concatenation
    for n, v in given.items():
        if n in got: return None
        got[n] = v
    missing = [n for n, default in spec if n not in got]
    for n, default in spec:
        if n in missing and not default: return None
    return got, missing

SPECS = [[], [('a', 0)], [('a', 1)], [('a', 0), ('b', 0)], [('a', 0), ('b', 1)], [('a', 1), ('b', 1)], [('a', 1), ('b', 0)], [('b', 0), ('a', 1), ('c', 1)], [('c', 1), ('a', 1), ('b', 1)]]

class Seen(object):
    def __init__(self): self.log, self.vals = [], {}
    def d(self, n):
        self.log.append(n)
        return 'default ' + n
    def cap(self, n, v):
        self.vals[n] = v
        return ''

def judge(S, r, seen, ref, body, script, what):
    if ref is None:
        S.check(r[0] == 'err' and isinstance(r[1], HError), what + ': error expected', lambda: '\n%s\n got %r %r' % (script, r, seen.vals))
        return
    vals, missing = ref
    want = dict(vals)
    for n in missing: want[n] = 'default ' + n
    S.check(r[0] == 'ok', what + ': accepted', lambda: '\n%s\n got %r' % (script, r))
    if r[0] != 'ok': return
    S.check(seen.vals == want, what + ': values', lambda: '\n%s\n got %r expected %r' % (script, seen.vals, want))
    S.check(seen.log == missing, what + ': defaults evaluated once, in order', lambda: '\n%s\n got %r expected %r' % (script, seen.log, missing))
    S.check('=end' in r[1] and ('BODY' in r[1]) == body, what + ': output', lambda: '%r' % (r,))

@harness(quick=[{'spec': i, 'body': b} for i in range(len(SPECS)) for b in (0, 1)], thorough=[{'spec': i, 'body': 1, 'most': 4} for i in range(3, len(SPECS))],
         bounds='9 signatures with and without body attribute; up to 3 (thorough: 4) values, each positional or named with any of the names a, b, c, d, q')
def block(S, spec, body, most=3):
    spec = SPECS[spec]
    n = S.pick('n', most + 1)
    p = S.pick('p', n + 1)
    pos = ['v%d' % i for i in range(p)]
    named = [(S.text('n%d' % i, 1, NAMES), 'w%d' % i) for i in range(n - p)]
    use = 'H' + ''.join([' "%s"' % v for v in pos] + [' ' + k + '="' + v + '"' for k, v in named])
    seen = Seen()
    script = define(spec, body) + use + ('\n  | BODY' if body else '') + '\n'
    r = S.run(render_ctx, script, d=seen.d, cap=seen.cap)
    judge(S, r, seen, bind(spec, body, pos, named), bool(body), script, 'block')

@harness(quick=[{'spec': i} for i in range(len(SPECS))], bounds='the same for a tag called in an expression; up to 3 values; names given once')
def called(S, spec):
    spec = SPECS[spec]
    body = S.flag('body')
    n = S.pick('n', 4)
    p = S.pick('p', n + 1)
    pos = ['v%d' % i for i in range(p)]
    named = [(S.text('n%d' % i, 1, NAMES), 'w%d' % i) for i in range(n - p)]
    for i in range(len(named)):
        for k in range(i): S.assume(named[i][0] != named[k][0])
    args = ['"BODY"' if body else 'None'] + ['"%s"' % v for v in pos] + [k + '="' + v + '"' for k, v in named]
    seen = Seen()
    script = define(spec, body) + '/ {%H(' + ', '.join(args) + ')}\n'
    r = S.run(render_ctx, script, d=seen.d, cap=seen.cap)
    judge(S, r, seen, bind(spec, body, pos, named), body, script, 'call')

@harness(quick=[{}], bounds='the same arguments in a block and in an expression give the same text')
def same(S):
    spec = S.choice('spec', SPECS[3:6])
    n = S.pick('n', 3)
    vals = [S.string('v%d' % i, 1, UPPER) for i in range(n)]
    name = S.text('name', 1, NAMES)
    extra = S.flag('x')
    s = '% H @q' + ''.join([' ' + k + ('="dflt"' if d else '') for k, d in spec]) + '\n  p\n    |' + ''.join([' $' + k for k, _ in spec]) + '\n    @q\n'
    use1 = 'H' + ''.join([' v[%d]' % i for i in range(n)]) + (' ' + name + '=v[-1]' if extra and n else '') + '\n  | BODY\n'
    use2 = '/ {%H("BODY"' + ''.join([', v[%d]' % i for i in range(n)]) + (', ' + name + '=v[-1]' if extra and n else '') + ')}\n'
    a, b = S.run(render_ctx, s + use1, v=vals), S.run(render_ctx, s + use2, v=vals)
    if a[0] == 'err': S.check(b[0] == 'err' and type(b[1]) is type(a[1]), 'block and call', lambda: '%r %r' % (a, b))
    else: S.check(b[0] == 'ok' and a[1].split() == b[1].split(), 'block and call', lambda: '\n%s\n%s%s\n %r %r' % (s, use1, use2, a, b))

@harness(quick=[{}], bounds='definitions with up to three attributes named by any letters of a, b, c and a body attribute: duplicates rejected')
def duplicates(S):
    n = S.pick('n', 4)
    body = S.flag('body')
    three = RangeSet.of('abc')
    names = [S.text('n%d' % i, 1, three) for i in range(n)]
    b = S.text('b', 1, three) if body else None
    s = '% H' + (' @' + b if body else '') + ''.join([' ' + x for x in names]) + '\n  | =end\nH' + ' 1' * n + '\n'
    allnames = names + ([b] if body else [])
    dup = False
    for i in range(len(allnames)):
        for k in range(i):
            if allnames[i] == allnames[k]: dup = True
    r = S.run(render, s)
    if dup: S.check(r[0] == 'err' and isinstance(r[1], HError), 'duplicate attribute', lambda: '%s %r' % (s, r))
    else: S.check(r[0] == 'ok' and r[1].strip() == '=end', 'distinct attributes', lambda: '%s %r' % (s, r))

@harness(quick=[{}], bounds='a positional value after a named one is an error; no output')
def order(S):
    k = S.text('k', 1, RangeSet.of('abc'))
    s = '% H a=1 b=1 c=1\n  | $a $b $c\n| before\nH ' + k + '=2 3\n'
    r = S.run(render, s)
    S.check(r[0] == 'err' and isinstance(r[1], HError), 'positional after named', lambda: '%s %r' % (s, r))

@harness(quick=[{}], bounds='a body (text, blocks, tags) for a hypertag without body attribute')
def nobody(S):
    form = S.choice('form', ['H | x', 'H\n  | x', 'H : p', 'H\n  p\n    | x', 'H : H', 'H ! x', 'H / x', 'div : H | x', 'H a=1 | x', 'if 1\n  H | x', '| {%H("x")}'])
    default = S.flag('d')
    s = ('% H a=1\n' if default else '% H\n') + '  | =h\n' + form + '\n'
    r = S.run(render, s)
    S.check(r[0] == 'err' and isinstance(r[1], HError), 'body not accepted', lambda: '%s %r' % (s, r))
    ok = S.run(render, s.split('\n')[0] + '\n  | =h\nH\ndiv : H\n. \n  H\n'.replace('. \n', '.\n'))
    S.check(ok[0] == 'ok' and ok[1].count('=h') == 3, 'no body', lambda: '%r' % (ok,))

VALS = ['"lit"', '7', '{x}', '$x', 'x', '{x + x}', '[x]', 'x[0]', 'o.m', '{x, 1}', '(x)', '{"k": x}', 'o.f(x)', '{x if 1 else 2}', 'None', '-1', 'True', "'a{x}b'", '"$x"', 'x:o.f', '{x}?', 'x?', '1.5', 'r"{x}"']
@harness(quick=[{}], bounds='values written in every form of value of an attribute; the object itself is passed')
def values(S):
    v = S.choice('v', [f for f in VALS if f not in ('-1', 'x:o.f')])
    x = S.string('x', 2, UPPER)
    S.assume(len(x) > 0)
    class O(object):
        def f(self, y): return ('f', y)
    o = O(); o.m = [x]
    want = {'"lit"': 'lit', '7': 7, '{x}': x, '$x': x, 'x': x, '{x + x}': x + x, '[x]': [x], 'x[0]': x[0], 'o.m': o.m, '{x, 1}': (x, 1), '(x)': x, '{"k": x}': {'k': x}, 'o.f(x)': ('f', x), '{x if 1 else 2}': x,
            'None': None, 'True': True, "'a{x}b'": 'a' + x + 'b', '"$x"': x, '{x}?': x, 'x?': x, '1.5': 1.5, 'r"{x}"': '{x}'}[v]
    if v == '{"k": x}': v = '{{"k": x}}'.replace('{{', '{ {').replace('}}', '} }')
    got = []
    r = S.run(render_ctx, '% H a b=0\n  | =${a2} {cap(a)} {cap(b)}\n'.replace('${a2}', '') + 'H ' + v + '\nH b=' + v + ' a=1\nH 1 ' + v + '\n', cap=lambda v: got.append(v) or '', x=x, o=o)
    S.check(r[0] == 'ok' and got == [want, 0, 1, want, 1, want], 'value passed', lambda: '%s %r got %r expected %r' % (v, r, got, want))

@harness(quick=[{}], bounds='two hypertags whose attributes, outer variables and local variables share any names; one uses the other and its own attributes afterwards')
def interference(S):
    ab = RangeSet.of('ab')
    p, q, o, l = S.text('p', 1, ab), S.text('q', 1, ab), S.text('o', 1, ab), S.text('l', 1, ab)
    call = S.flag('call')
    inner = '  / {%G(None, "2")}\n' if call else '  G "2"\n'
    s = '$ ' + o + ' = "0"\n% G ' + p + '\n  | =g$' + p + '\n  $ ' + l + ' = "9"\n% H ' + q + '\n  | =h$' + q + '\n' + inner + '  | =h$' + q + '\nH "1"\n| =o$' + o + '\nH ' + q + '={' + o + '}\n| =o$' + o + '\nG "5"\n| =o$' + o + '\n'
    got = [x.strip() for x in render(s).split('\n') if x.strip()]
    S.check(got == ['=h1', '=g2', '=h1', '=o0', '=h0', '=g2', '=h0', '=o0', '=g5', '=o0'], 'attributes of two hypertags', lambda: '%s %r' % (s, got))

@harness(quick=[{}], bounds='recursive expansion of a hypertag passed to itself as a value, depth 0-3, in a chain of tags and by position or name')
def recursion(S):
    depth = S.pick('depth', 4)
    form = S.choice('form', ['{t(None, n-1, t)}', '{t(None, t=t, n=n-1)}', '{t(None, n - 1, t=t)}'])
    nest = S.choice('nest', ['', 'div\n', 'G 5\n'])
    local = S.flag('local')
    ind = '    ' + ('  ' if nest else '')
    s = '% G @b n\n  @b\n  | =G$n\n% F n t m="d"\n  | =a$n$m\n' + ('  $ x = n\n' if local else '') + '  if n\n' + ('    ' + nest if nest else '') + ind + ('$ y = n\n' + ind if local else '') + '/ ' + form + '\n' + (ind + '| =y$y\n' if local else '') + '  | =b$n' + ('$x' if local else '') + '\nF {n} t={%F}\nF {n} {%F} m="e"\n'
    r = S.run(render_ctx, s, n=depth)
    def ref(n, m):
        out = ['=a%d%s' % (n, m)]
        if n:
            out += ref(n - 1, 'd')
            if local: out.append('=y%d' % n)
            if nest == 'G 5\n': out.append('=G5')
        return out + ['=b%d' % n + ('%d' % n if local else '')]
    S.check(r[0] == 'ok', 'recursion', lambda: '\n%s\n%r' % (s, r))
    got = [x.strip() for x in r[1].replace('<div>', '').replace('</div>', '').split('\n') if x.strip()]
    S.check(got == ref(depth, 'd') + ref(depth, 'e'), 'recursion', lambda: '\n%s\n got %r\n expected %r' % (s, got, ref(depth, 'd') + ref(depth, 'e')))

@harness(quick=[{}], bounds='defaults are evaluated at each use, in the scope of the definition')
def defaults(S):
    a, b = S.string('a', 1, UPPER), S.string('b', 1, UPPER)
    name = S.text('n', 1, RangeSet.of('xy'))
    s = ('$ x = a\n% H y=x k={x + "!"}\n  | =$y$k\nH\n$ x = b\nH\ndiv\n  $ ' + name + ' = "Q"\n  H\n  H ' + name + '\n')
    got = [l.strip() for l in render_ctx(s, a=a, b=b).split('\n') if '=' in l]
    S.check(got == ['=' + a + a + '!', '=' + b + b + '!', '=' + b + b + '!', '=' + 'Q' + b + '!'], 'defaults', lambda: '%s %r' % (s, got))
    # and a default is not evaluated when the value is given
    n = []
    r = S.run(render_ctx, '% H a={fun()} b={1/0}\n  | =$a$b\nH "1" "2"\nH b="2" a="1"\nH b="2"\n', fun=lambda: n.append(0) or 'F')
    S.check(r[0] == 'ok' and [l for l in r[1].split('\n') if l] == ['=12', '=12', '=F2'] and len(n) == 1, 'defaults only when missing', lambda: '%r %r' % (r, n))

@harness(quick=[{}], bounds='.class and #id shortcuts bind to the attributes class and id')
def shortcuts(S):
    c, i = S.text('c0', 1, LOWER) + S.text('c1', 1, LOWER | DIGIT | RangeSet.of('-_')), S.text('i', 1, LOWER)
    form = S.choice('f', ['H .C#I', 'H #I.C', 'H class="C" #I', 'H.C#I', 'H "C" id="I"', 'H id="I" .C', 'H .C id="I"'])
    has = S.flag('has')
    s = ('% H class id="none"' if has else '% H class idd=1') + '\n  | =$class' + ('.$id' if has else '') + '\n' + fill(fill(form, c, 'C'), i, 'I') + '\n'
    r = S.run(render, s)
    if has: S.check(r[0] == 'ok' and r[1].strip() == '=' + c + '.' + i, 'shortcuts', lambda: '%s %r' % (s, r))
    else: S.check(r[0] == 'err' and isinstance(r[1], HError), 'shortcut to a missing attribute', lambda: '%s %r' % (s, r))
    # repeated ones are joined by a space
    r = S.run(render, '% H class\n  | =$class\nH .' + c + ' .' + i + '\n')
    S.check(r[0] == 'ok' and r[1].strip() == '=' + c + ' ' + i, 'repeated shortcut', lambda: '%r' % (r,))

@harness(quick=[{'spec': i} for i in (0, 1, 2, 4, 7)], thorough=[{'spec': i, 'most': 3} for i in range(len(SPECS))],
         bounds='signatures with a body attribute used without a body, or with an empty one; up to 2 (thorough: 3) values, positional or with any of the names: the body attribute cannot be given as a value')
def unfilled(S, spec, most=2):
    spec = SPECS[spec]
    n = S.pick('n', most + 1)
    p = S.pick('p', n + 1)
    pos = ['v%d' % i for i in range(p)]
    named = [(S.text('n%d' % i, 1, NAMES), 'w%d' % i) for i in range(n - p)]
    tail = S.choice('tail', ['', ' |', '\n  pass', '\n  -- comment'])
    use = 'H' + ''.join([' "%s"' % v for v in pos] + [' ' + k + '="' + v + '"' for k, v in named])
    seen = Seen()
    script = define(spec, True) + use + tail + '\n'
    r = S.run(render_ctx, script, d=seen.d, cap=seen.cap)
    judge(S, r, seen, bind(spec, True, pos, named), False, script, 'block without body')

@harness(quick=[{}], thorough=[{'deep': 4}], bounds='recursive expansion, depth up to 3 (thorough: 4), in which local variables and nested hypertags are assigned in some of the expansions only, before or after the inner one: each expansion has its own')
def locals_(S, deep=3):
    depth = S.pick('depth', deep + 1)
    form = S.choice('form', ['arg', 'global', 'variable'])
    k, j = S.pick('k', deep + 1), S.pick('j', deep + 1)
    wrap = S.choice('wrap', ['', 'div', 'if 1'])
    call = {'arg': '{t(None, n-1, t)}', 'global': '{h(None, n-1)}', 'variable': '{hs[0](None, n-1)}'}[form]
    i = '    ' if wrap else '  '
    body = 'if n > 9\n  $ x = 1\n  $ y = 1\ntry | =a$x\nelse | =a\ntry | =b$y\nelse | =b\nif n == %d\n  $ x = n\nif n\n  / %s\nif n == %d\n  $ y = n\ntry | =x$n.$x\nelse | =x$n.\ntry | =y$n.$y\nelse | =y$n.\n' % (k, call, j)
    s = '% F n' + (' t' if form == 'arg' else '') + '\n' + ('  ' + wrap + '\n' if wrap else '') + ''.join([i + l + '\n' for l in body.split('\n') if l])
    if form == 'global': s = '$ h = 0\n' + s + '$ h = %F\n'
    if form == 'variable': s = '$ hs = []\n' + s + '$ hs.append(%F)\n'
    use = 'F %d' % depth + (' %F' if form == 'arg' else '') + '\n'
    r = S.run(render, s + use + use)
    def ref(n):
        return ['=a', '=b'] + (ref(n - 1) if n else []) + ['=x%d.' % n + (str(n) if n == k else ''), '=y%d.' % n + (str(n) if n == j else '')]
    got = [l.strip() for l in r[1].split('\n') if l.strip()[:1] == '='] if r[0] == 'ok' else repr(r)
    S.eq(got, ref(depth) * 2, 'locals of a recursive hypertag\n' + s)
