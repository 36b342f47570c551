from checks.common import *

# Reference model of the layout.  gen() builds, from picks of the solver, the script of a block at script indentation `si` and the
# nodes it produces at output indentation `oi`: [kind, indentation, text], kind 'm' (empty lines), 'o' (outline) or 'i' (inline).

def emit(nodes):
    out = ''
    for k, ind, t in nodes: out = out + (t if k != 'o' else '\n' + t if t[:1] == '\n' else '\n' + ind + t)
    return out

def trim(text):
    """Indentation of lines with no content is not prescribed."""
    return '\n'.join([line if line.strip(' \t') else '' for line in text.split('\n')])

def outline(nodes):
    """The first block of a list starts on a new line."""
    r = list(nodes)
    for i, n in enumerate(r):
        if n[0] == 'm': continue
        r[i] = ['o', n[1], n[2]]
        break
    return r

def element(name, nodes, oi, attrs=''):
    body = emit(nodes)
    nl = '\n' + oi if nodes and body[:1] == '\n' else ''
    return '<' + name + attrs + '>' + body + nl + '</' + name + '>'

def reindent(nodes, oi):
    return nodes

LEAF = ['text', 'tail', 'empty', 'head', 'assign', 'comment', 'pass', 'use', 'dedent', 'append', 'markup', 'verbatim', 'headed', 'inlineif', 'def', 'emptyif', 'expr']
INNER = ['tag', 'if', 'hyper', 'hyper2', 'for2', 'null', 'try', 'else', 'chain', 'while', 'tagcolon', 'elsefor', 'elsewhile', 'elsetry', 'elif']
CONTROL = ['if', 'for2', 'try', 'else', 'while', 'elsefor', 'elsewhile', 'elsetry', 'elif']
MODIFIED = ['text', 'markup', 'verbatim', 'tail', 'empty', 'head', 'headed', 'use', 'inlineif'] + INNER
PROLOG = '% H @b\n  div\n   @b\n% H2 @b\n  | k\n  @b\n% U\n  i | u\n$ w = 1\n'

class Gen(object):
    def __init__(self, S, leaf, inner, margins, indents, mods=('',)):
        self.S, self.leaf, self.inner, self.margins, self.indents, self.mods = S, leaf, inner, margins, indents, list(mods)
        self.n = 0

    def pick(self, what, options):
        self.n += 1
        return self.S.choice('%s%d' % (what, self.n), options) if len(options) > 1 else options[0]

    def indent(self):
        """Increment of the indentation: a choice of the solver between the given strings ('*' is any space or tab)."""
        d = self.pick('d', self.indents)
        return ''.join([self.S.char('w%d.%d' % (self.n, i), WS) if c == '*' else c for i, c in enumerate(d)])

    def forest(self, shape, si, oi, where):
        script = ''; nodes = []
        d = None
        for s in shape:
            a, b = self.block(s, si, oi, where, bool(nodes and nodes[-1][0] != 'm' and s is shape[-1]))
            script = script + a
            nodes = nodes + b
        return script, nodes

    def block(self, shape, si, oi, where, last):
        """Script of one block (shape: list of the shapes of the nested ones) with a leading newline, and its nodes."""
        m = self.pick('m', self.margins)
        kind = self.pick('k', self.inner if shape else self.leaf)
        margin = [['m', '', '\n' * m]] if m else []
        head = '\n' * m + '\n' + si
        mod = self.pick('o', self.mods) if kind in MODIFIED else ''
        if mod == '<' and where[0] == 'hyper' or mod == '...' and m: mod = ''
        if mod == '<': oi = where[1]                     # the output indentation of the parent
        if mod: mod = mod + (' ' if shape else '')
        a, b = self.plain(shape, kind, si, oi, where, last, m, head, margin, mod)
        if mod[:1] == '.': b = [['i', n[1], n[2]] if n is self.first else n for n in b]
        return a, b

    def plain(self, shape, kind, si, oi, where, last, m, head, margin, mod):
        lines = head
        head = head + mod
        a, b = self.body(shape, kind, si, oi, where, last, m, head, margin, lines, mod)
        self.first = b[len(margin)] if kind not in CONTROL and len(b) > len(margin) else None
        return a, b

    def body(self, shape, kind, si, oi, where, last, m, head, margin, lines, mod):
        if not shape:
            parent = where[1]
            if kind == 'text':     return head + '| a', margin + [['o', oi, 'a']]
            if kind == 'markup':   return head + '/ <a>', margin + [['o', oi, '<a>']]
            if kind == 'verbatim': return head + '! {a}', margin + [['o', oi, '{a}']]
            if kind == 'tail':     return head + '| a\n' + si + '  b\n\n' + si + '   c', margin + [['o', oi, 'a\n' + oi + 'b\n\n' + oi + ' c']]
            if kind == 'empty':    return head + 'p', margin + [['o', oi, '<p></p>']]
            if kind == 'head':     return head + 'p | x', margin + [['o', oi, '<p>x</p>']]
            if kind == 'headed':   return head + 'p : | x\n' + si + '  b | y', margin + [['o', oi, '<p>x\n' + oi + '  <b>y</b></p>']]
            if kind == 'use':      return head + 'U', margin + [['o', oi, '<i>u</i>']]
            if kind == 'assign':   return head + '$ v = 1', margin
            if kind == 'expr':     return head + '$ v0', margin
            if kind == 'comment':  return head + '# c', margin
            if kind == 'pass':     return head + 'pass', margin
            if kind == 'inlineif': return head + 'if 1 | x', margin + [['o', oi, 'x']]
            if kind == 'emptyif':  return head + 'if 0 | x', margin
            if kind == 'def':
                if where[2]: return head + '-- c\n' + si + '  d', margin
                return head + '% D\n' + si + '   p', margin
            if kind == 'dedent':
                if where[0] == 'hyper': return head + '| a', margin + [['o', oi, 'a']]
                return head + '< | a', margin + [['o', parent, 'a']]
            if kind == 'append':
                if m or not last: return head + '| a', margin + [['o', oi, 'a']]
                return head + '... b | y', [['i', oi, '<b>y</b>']]
            raise AssertionError(kind)
        d = self.indent()
        if kind in ('tag', 'chain', 'null', 'tagcolon'):
            a, b = self.forest(shape, si + d, oi + d, ('tag', oi, where[2]))
            if kind == 'tag':      return head + 'p' + a, margin + [['o', oi, element('p', b, oi)]]
            if kind == 'tagcolon': return head + 'p .k:' + a, margin + [['o', oi, element('p', b, oi, ' class="k"')]]
            if kind == 'chain':    return head + 'p : b' + a, margin + [['o', oi, '<p>' + element('b', b, oi) + '</p>']]
            if kind == 'null':     return head + '.' + a, margin + [['o', oi, emit(b)]]
        if kind == 'hyper':
            a, b = self.forest(shape, si + d, oi + ' ', ('hyper', oi, where[2]))
            return head + 'H' + a, margin + [['o', oi, '<div>' + emit(outline(b)) + '\n' + oi + '</div>' if emit(outline(b))[:1] == '\n' else '<div>' + emit(outline(b)) + '</div>']]
        if kind == 'hyper2':
            a, b = self.forest(shape, si + d, oi, ('hyper', oi, where[2]))
            return head + 'H2' + a, margin + [['o', oi, 'k' + emit(outline(b))]]
        # control blocks
        a, b = self.forest(shape, si + d, oi, ('control', oi, True))
        if kind == 'if':    r = head + 'if 1' + a, b
        if kind == 'for2':  r = head + 'for j in [1,2]' + a, b + b
        if kind == 'try':   r = head + 'try' + a, b
        if kind == 'else':  r = head + 'if 0\n' + si + '  | z\n' + si + 'else' + a, b
        if kind == 'elsefor': r = head + 'for j in []\n' + si + ' q\n' + si + 'else' + a, b
        if kind == 'elsewhile': r = head + 'while 0\n' + si + ' q\n' + si + 'else' + a, b
        if kind == 'elsetry': r = head + 'try\n' + si + ' q\n' + si + '  $ v0.x\n' + si + 'else' + a, b
        if kind == 'elif':  r = head + 'if 0 | q\n' + si + 'elif 1' + a + '\n' + si + 'else\n' + si + ' q', b
        if kind == 'while': r = lines + '$ w = 1\n' + si + mod + 'while w' + a + '\n' + si + d + '$ w = 0', b
        return r[0], margin + (r[1] if mod[:1] == '.' else outline(r[1]))


def run(S, shape, leaf, inner, margins=(0,), indents=('  ',), tail=0, mods=('',)):
    g = Gen(S, leaf, inner, list(margins), list(indents), mods)
    a, b = g.forest(shape, '', '', ('top', '', False))
    script = PROLOG + '$ v0 = 2\n|a' + a + '\n' * tail
    want = 'a' + emit(b) + '\n' * tail
    got = render(script)
    S.observe('out', got)
    S.check(got == want or trim(got) == trim(want), 'layout', lambda: 'script %r\n  got      %r\n  expected %r' % (script[len(PROLOG):], got, want))

T = []                                                   # a leaf
SHAPES = {'1': [T], 'chain2': [[T]], 'chain3': [[[T]]], 'two': [[T, T]], 'next': [[T], T], 'deep2': [[[T], T]], 'two-two': [[T], [T]], 'chain4': [[[[T]]]], 'mid': [[T, [T]]]}
SMALL = ['text', 'tail', 'empty', 'assign']
BASIC = ['tag', 'if', 'hyper']


@harness(quick=[{}], bounds='every kind of block nested in every kind of block in every kind of block')
def nesting(S):
    run(S, [[[T]]], LEAF, INNER)

@harness(quick=[{}], bounds='every kind of nested block followed by a block of every kind')
def siblings(S):
    run(S, [[T, T]], LEAF, ['tag', 'if', 'hyper', 'for2', 'elsewhile'])

@harness(quick=[{'shape': 'next'}], thorough=[{'shape': 'mid'}, {'shape': 'two-two'}, {'shape': 'deep2'}],
         bounds='blocks after nested blocks: the indentation is restored')
def after(S, shape):
    run(S, SHAPES[shape], SMALL + ['append', 'head'], INNER)

@harness(quick=[{'shape': 'two'}], thorough=[{'shape': 'chain3'}, {'shape': 'next'}, {'shape': 'mid'}], bounds='0 to 2 blank lines before each block')
def blank(S, shape):
    run(S, SHAPES[shape], ['text', 'assign', 'empty'], BASIC + ['for2', 'null', 'hyper2'] if shape == 'two' else BASIC, margins=[0, 1, 2] if shape != 'mid' else [0, 1], tail=1)

@harness(quick=[{'shape': 'chain3', 'w': ['*', '**']}], thorough=[{'shape': 'deep2', 'w': ['*', '**']}, {'shape': 'chain3', 'w': ['***', '****']}],
         bounds='indentation steps of 1 or 2 (thorough: up to 4) symbolic spaces or tabs each')
def indentation(S, shape, w):
    run(S, SHAPES[shape], ['tail', 'head', 'dedent'], ['tag', 'if', 'hyper', 'null'], indents=w)

@harness(quick=[], thorough=[{'shape': 'chain4'}, {'shape': 'mid'}], bounds='four levels')
def deep(S, shape):
    run(S, SHAPES[shape], SMALL, ['tag', 'if', 'hyper', 'for2', 'chain', 'null'])

MODS = ['', '<', '...']

@harness(quick=[{'shape': 'chain2', 'leaf': MODIFIED[:9]}, {'shape': 'two', 'leaf': ['tail']}], thorough=[{'shape': 'two', 'leaf': ['use', 'head']}, {'shape': 'chain3', 'leaf': ['tail', 'use', 'headed']}, {'shape': 'next', 'leaf': ['tail', 'head']}],
         bounds='the modifiers < and ... (or none) in front of every block of a chain of two nested blocks and of two siblings in a block')
def modifiers(S, shape, leaf):
    run(S, SHAPES[shape], leaf, INNER, mods=MODS)
