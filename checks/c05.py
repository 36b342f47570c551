from checks.common import *

# A program is a tree of blocks; every condition is a call t(k), every sequence s(k), every counter w(k), every leaf prints its
# number and calls e(k), so that the order and the number of evaluations is observed as well as the output.

class World(object):
    """Answers of the environment: symbolic truth values of conditions, lengths of sequences, numbers of repetitions."""
    def __init__(self, S, most):
        self.S, self.most = S, most
        self.cond, self.size, self.reps = {}, {}, {}
        self.restart()
    def restart(self):
        self.log = []; self.left = {}; self.n = {}
    def _c(self, k):
        if k not in self.cond: self.cond[k] = self.S.bool('c%s' % k)
        return self.cond[k]
    def t(self, k):
        # a condition evaluated again may give another answer
        n = self.n[k] = self.n.get(k, 0) + 1
        self.log.append(('t', k))
        return self._c('%s.%s' % (k, n))
    def s(self, k):
        self.log.append(('s', k))
        if k not in self.size: self.size[k] = self.S.pick('s%s' % k, self.most + 1)
        return list(range(self.size[k]))
    def w(self, k):
        self.log.append(('w', k))
        if k not in self.reps: self.reps[k] = self.S.pick('w%s' % k, self.most + 1)
        if k not in self.left: self.left[k] = self.reps[k]
        if self.left[k] == 0:
            del self.left[k]
            return False
        self.left[k] -= 1
        return True
    def e(self, k):
        self.log.append(('e', k))
        return ''
    def f(self, k):
        self.log.append(('f', k))
        raise KeyError(k)

def run(prog, world, out, env):
    """Reference interpreter."""
    for b in prog:
        k = b[0]
        if k == 'leaf':
            world.e(b[1]); out.append('=%s' % b[1])
        elif k == 'var':
            out.append('=%s.%s' % (b[1], env.get('i%s' % b[2])))
        elif k == 'set':
            env['v'] = b[1]
        elif k == 'get':
            out.append('=v%s' % env['v'])
        elif k == 'fail':
            world.f(b[1])
        elif k == 'if':
            for c, body in b[1]:
                if world.t(c):
                    run(body, world, out, env); break
            else:
                if b[2] is not None: run(b[2], world, out, env)
        elif k == 'for':
            items = world.s(b[1])
            for i in items:
                env['i%s' % b[1]] = i
                run(b[2], world, out, env)
            if not items and b[3] is not None: run(b[3], world, out, env)
        elif k == 'while':
            n = 0
            while world.w(b[1]):
                n += 1
                run(b[2], world, out, env)
            if not n and b[3] is not None: run(b[3], world, out, env)
        elif k == 'try':
            for body in b[1]:
                mine = []
                try: run(body, world, mine, env)
                except KeyError: continue
                out.extend(mine)
                break
        elif k in ('tag', 'hyper', 'null'):
            run(b[1], world, out, env)
    return out

def text(prog, ind):
    out = ''
    for b in prog:
        k = b[0]
        if k == 'leaf':   out += ind + '| {e(%s)}=%s\n' % (b[1], b[1])
        elif k == 'var':  out += ind + '| =%s.$i%s\n' % (b[1], b[2])
        elif k == 'set':  out += ind + '$ v = %s\n' % b[1]
        elif k == 'get':  out += ind + '| =v$v\n'
        elif k == 'fail': out += ind + '| {f(%s)}=%s\n' % (b[1], b[1])
        elif k == 'if':
            for i, (c, body) in enumerate(b[1]): out += clause(ind, ('if' if i == 0 else 'elif') + ' t(%s)' % c, body)
            if b[2] is not None: out += clause(ind, 'else', b[2])
        elif k == 'for':
            out += clause(ind, 'for i%s in s(%s)' % (b[1], b[1]), b[2])
            if b[3] is not None: out += clause(ind, 'else', b[3])
        elif k == 'while':
            out += clause(ind, 'while w(%s)' % b[1], b[2])
            if b[3] is not None: out += clause(ind, 'else', b[3])
        elif k == 'try':
            for i, body in enumerate(b[1]): out += clause(ind, 'try' if i == 0 else 'else', body)
        else: out += ind + {'tag': 'div', 'hyper': 'H', 'null': '.'}[k] + '\n' + text(b[1], ind + '  ')
    return out

def clause(ind, head, body):
    """A clause with its body: absent, inline text or nested blocks (a one-leaf body marked 'inline' is put in the heading)."""
    if not body: return ind + head + '\n'
    if body[0] == 'inline': raise AssertionError
    if len(body) == 1 and body[0][0] in ('leaf', 'var') and body[0][-1] == 'inline': return ind + head + ' ' + text([body[0]], '')
    return ind + head + '\n' + text(body, ind + '  ')

HEAD = '% H @b\n  @b\n'

def decide(S, prog, most=2):
    world = World(S, most)
    want = run(prog, world, [], {'v': 0})
    wlog = list(world.log)
    world.restart()
    s = HEAD + '$ v = 0\n' + text(prog, '')
    r = render_ctx(s, t=world.t, s=world.s, w=world.w, e=world.e, f=world.f)
    # inline bodies are placed one after another without a line break: only the marks count here (C03 decides on the layout)
    got = ['=' + l.strip() for l in r.replace('<div>', '').replace('</div>', '').split('=')[1:]]
    S.observe('out', got); S.observe('log', world.log)
    S.check(got == want, 'blocks executed', lambda: '\n%s\n got %r\n expected %r' % (s, got, want))
    S.check(world.log == wlog, 'evaluations', lambda: '\n%s\n got %r\n expected %r' % (s, world.log, wlog))


class Gen(object):
    def __init__(self, S): self.S, self.n, self.q = S, 0, 0
    def id(self): self.n += 1; return self.n
    def choice(self, what, opts):
        self.q += 1
        return self.S.choice('%s%d' % (what, self.q), opts) if len(opts) > 1 else opts[0]
    def leaf(self, forms):
        f = self.choice('b', forms)
        if f == 'empty': return []
        if f == 'inline': return [('leaf', self.id(), 'inline')]
        if f == 'two': return [('leaf', self.id()), ('leaf', self.id())]
        if f == 'tag': return [('tag', [('leaf', self.id())])]
        if f == 'hyper': return [('hyper', [('leaf', self.id())])]
        if f == 'set': return [('set', self.id())]
        return [('leaf', self.id())]
    def control(self, kind, body, other=None):
        """body(): the body of a clause; other(): of an else clause."""
        other = other or body
        i = self.id()
        if kind == 'if':     return ('if', [(i, body())], None)
        if kind == 'ifelse': return ('if', [(i, body())], other())
        if kind == 'elif':   return ('if', [(i, body()), (self.id(), other())], None)
        if kind == 'elifelse': return ('if', [(i, body()), (self.id(), other())], other())
        if kind == 'elif3':  return ('if', [(i, other()), (self.id(), other()), (self.id(), body())], other())
        if kind == 'for':    return ('for', i, body() + [('var', self.id(), i)], None)
        if kind == 'forelse': return ('for', i, body(), other())
        if kind == 'while':  return ('while', i, body(), None)
        if kind == 'whileelse': return ('while', i, body(), other())
        if kind == 'try':    return ('try', [body()])
        if kind == 'tryelse': return ('try', [body() + [('fail', self.id())], other()])
        if kind in ('tag', 'hyper', 'null'): return (kind, body())
        if kind == 'leaf':   return ('leaf', i)
        raise AssertionError(kind)

KINDS = ['if', 'ifelse', 'elif', 'elifelse', 'elif3', 'for', 'forelse', 'while', 'whileelse', 'try', 'tryelse']
FORMS = ['empty', 'inline', 'one', 'two', 'tag', 'hyper', 'set']


@harness(quick=[{'kind': k} for k in KINDS], bounds='every control block with every form of the body of each clause, all outcomes of the conditions, 0-2 items / repetitions, followed by a block')
def single(S, kind):
    g = Gen(S)
    few = kind in ('elifelse', 'elif3')
    b = g.control(kind, lambda: g.leaf(FORMS), lambda: g.leaf(['empty', 'inline', 'one', 'set'] if not few else ['empty', 'inline', 'set']))
    decide(S, [b, ('get',), ('leaf', 90)])

@harness(quick=[{'outer': k} for k in KINDS], bounds='every control block, directly or through a tag, hypertag or null tag, in every clause of every control block; 0-2 items / repetitions')
def nested(S, outer):
    g = Gen(S)
    place = g.choice('p', ['body', 'other'] if outer not in ('if', 'for', 'while', 'try') else ['body'])
    through = g.choice('t', [None, 'tag', 'hyper'])
    inner = g.choice('k', KINDS)
    def deep():
        b = [g.control(inner, lambda: g.leaf(['one']))]
        if through: b = [(through, b)]
        return b + [('set', g.id())]
    flat = lambda: g.leaf(['one'])
    b = g.control(outer, deep if place == 'body' else flat, flat if place == 'body' else deep)
    decide(S, [b, ('get',)], most=1 if outer in ('for', 'forelse', 'while', 'whileelse') and inner == 'elif3' else 2)

@harness(quick=[{}], bounds='two control blocks one after another with every kind of first and second')
def sequence(S):
    g = Gen(S)
    a, b = g.choice('k', KINDS), g.choice('k', KINDS)
    one = lambda: g.leaf(['one'])
    decide(S, [g.control(a, one), g.control(b, one)], most=1)

@harness(quick=[], thorough=[{'outer': k} for k in ['ifelse', 'forelse', 'whileelse', 'tryelse']], bounds='three levels of control blocks')
def deep(S, outer):
    g = Gen(S)
    k2, k3 = g.choice('k', ['ifelse', 'forelse', 'whileelse', 'tryelse', 'tag', 'hyper']), g.choice('k', KINDS)
    one = lambda: g.leaf(['one'])
    decide(S, [g.control(outer, lambda: [g.control(k2, lambda: [g.control(k3, one)], one), ('set', g.id())], one), ('get',)], most=1)

@harness(quick=[{}], bounds='conditions of any kind: integers, strings of 0-2 characters, lists, None, floats')
def truth(S):
    kind = S.choice('kind', ['int', 'str', 'list', 'none', 'bool', 'float', 'dict'])
    n = S.pick('n', 3)
    v = {'int': lambda: S.int('i', -3, 3), 'str': lambda: S.string('s', 2, VAL), 'list': lambda: [0] * n, 'none': lambda: None,
         'bool': lambda: S.bool('b'), 'float': lambda: [0.0, -0.5, 1e9][n], 'dict': lambda: {i: 0 for i in range(n)}}[kind]()
    true = True if v else False
    for form in ('if v | =a\nelse | =b', 'if v:\n  | =a\nelse:\n  | =b', 'if not v\n  | =b\nelif v | =a', 'if not (v)\n  | =b\nelse\n  | =a',
                 'if 0 | =z\nelif v | =a\nelse | =b', '$ n = 0\nwhile v and n < 1\n  | =a\n  $ n = 1\nelse | =b'):
        got = render_ctx(form, v=v).strip()
        S.check(got == ('=a' if true else '=b'), 'truth of a condition', lambda: '%r %r %r' % (form, v, got))

@harness(quick=[{}], bounds='strings, lists, tuples, ranges, dicts, generators of 0-3 items as sequences of a for block; pairs; shadowed names')
def items(S):
    kind = S.choice('kind', ['str', 'list', 'tuple', 'dict', 'gen', 'iter', 'range'])
    n = S.pick('n', 4)
    if kind == 'str': v = S.text('s', n, UPPER)
    elif kind == 'range': v = range(n)
    else:
        v = [S.int('i%d' % i, 0, 1) if kind != 'dict' else i * 7 for i in range(n)]
    want = list(v)
    given = {'str': lambda: v, 'range': lambda: v, 'list': lambda: v, 'tuple': lambda: tuple(v), 'dict': lambda: {k: 0 for k in v},
             'gen': lambda: (x for x in v), 'iter': lambda: iter(v)}[kind]
    for form in ('for x in v | =$x', 'for x in v\n  | =$x\nelse\n  | =none', 'for x in v:\n  p | =$x\nelse | =none', 'for x in v\n  for y in [x]\n    | =$y\nelse | =none'):
        got = [l.replace('<p>', '').replace('</p>', '').strip() for l in render_ctx(form, v=given()).split('\n') if '=' in l]
        if form == 'for x in v | =$x' and n:
            # inline bodies are placed one after another without line breaks
            S.check(''.join(got) == ''.join('=' + str(x) for x in want), 'items', lambda: '%r %r %r' % (form, want, got))
            continue
        S.check(got == (['=' + str(x) for x in want] or (['=none'] if 'else' in form else [])), 'items', lambda: '%r %r %r' % (form, want, got))

@harness(quick=[{}], bounds='a while block whose body changes its condition; up to 4 repetitions; loops in loops')
def counting(S):
    n = S.int('n', 0, 3); m = S.int('m', 0, 2)
    got = [l.strip() for l in render_ctx('$ i = 0\nwhile i < n\n  $ j = 0\n  while j < m\n    | =$i.$j\n    $ j += 1\n  else\n    | =none$i\n  $ i = i + 1\nelse\n  | =empty\n| =$i', n=n, m=m).split('\n') if l.strip()]
    want = []
    i = 0
    while i < n:
        j = 0
        while j < m: want.append('=%d.%d' % (i, j)); j += 1
        if j == 0: want.append('=none%d' % i)
        i += 1
    if i == 0: want.append('=empty')
    want.append('=%d' % i)
    S.check(got == want, 'repetitions', lambda: '%r %r' % (got, want))
