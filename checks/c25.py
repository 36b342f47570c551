from checks.common import *
from hypertag import DOM, Tag, TagFunction, Runtime

# Reference model: gen() builds, from picks of the solver, the script of a list of blocks and the expected nodes of the DOM:
#   ['T', text]                        a text node
#   ['M', n]                           a text node of n empty lines
#   [name, attrs, kwattrs, children]   a node of a tag; attrs and kwattrs are lists (of values, of (name, value) pairs)

def fun(body, *attrs, **kwattrs): return body
EXT = TagFunction(fun)

PROLOG = '''context %F, $v, $w
% H @b x y=$v z="d"
  div .h
    @b
% E x y="d"
  / e{x}
% A @b
  @ b
'''
HDIV = ('div', [], [('class', 'h')])

LEAF = ['text', 'markup', 'verbatim', 'tail', 'empty', 'attrs', 'dup', 'short', 'bool', 'ext', 'extnone', 'custom', 'native', 'nativekw', 'chain', 'br', 'null', 'none', 'def', 'assign', 'comment', 'pass', 'expr', 'inlinefor']
INNER = ['tag', 'chain', 'null', 'if', 'else', 'for', 'while', 'try', 'tryfail', 'hyper', 'hyper2', 'embed', 'ext']

CONTROL = ['if', 'else', 'for', 'while', 'try', 'tryfail']

class Gen(object):
    def __init__(self, S, leaf, inner, v, w, margins=False):
        self.margins = margins
        self.S, self.leaf, self.inner, self.v, self.w, self.n, self.control = S, leaf, inner, v, w, 0, 0

    def pick(self, what, options):
        self.n += 1
        return self.S.choice('%s%d' % (what, self.n), options) if len(options) > 1 else options[0]

    def forest(self, shape, si):
        s = ''; nodes = []
        for sub in shape:
            a, b = self.block(sub, si)
            s = s + a; nodes = nodes + b
        return s, nodes

    def block(self, shape, si):
        v, w = self.v, self.w
        m = self.pick('m', [0, 1, 2]) if self.margins else 0
        head = '\n' * m + '\n' + si
        margin = [['M', m]] if m else []
        kind = self.pick('k', self.inner if shape else self.leaf)
        if not shape:
            if kind == 'text':     return head + '| a {v}', margin + [['T', 'a ' + esc(v)]]
            if kind == 'markup':   return head + '/ <i>$v</i>', margin + [['T', '<i>' + v + '</i>']]
            if kind == 'verbatim': return head + '! {v}', margin + [['T', '{v}']]
            if kind == 'tail':     return head + '| a\n' + si + '  b\n\n' + si + '   c', margin + [['T', 'a\nb\n\n c']]
            if kind == 'empty':    return head + 'p', margin + [['p', [], [], []]]
            if kind == 'attrs':    return head + 'p a=$v b=7 c="x$w" d=[1,2] e={None} | t', margin + [['p', [], [('a', v), ('b', 7), ('c', 'x' + w), ('d', [1, 2]), ('e', None)], [['T', 't']]]]
            if kind == 'dup':      return head + 'p .k #i class=$v | $w', margin + [['p', [], [('class', 'k ' + v), ('id', 'i')], [['T', esc(w)]]]]
            if kind == 'short':    return head + 'p.$v#{w}', margin + [['p', [], [('class', v), ('id', w)], []]]
            if kind == 'bool':     return head + 'input checked=True x=False y=""', margin + [['input', [], [('checked', True), ('x', False), ('y', '')], []]]
            if kind == 'ext':      return head + 'F $v 5 k={w} | t', margin + [['fun', [v, 5], [('k', w)], [['T', 't']]]]
            if kind == 'extnone':  return head + 'F', margin + [['fun', [], [], []]]
            if kind == 'custom':   return head + 'custom "x-y" a=$v | t', margin + [['custom', ['x-y'], [('a', v)], [['T', 't']]]]
            if kind == 'native':   return head + 'E $v', margin + [['E', [], [('x', v)], [['T', 'e' + v]]]]
            if kind == 'nativekw': return head + 'E {w} y=$v', margin + [['E', [], [('x', w), ('y', v)], [['T', 'e' + w]]]]
            if kind == 'chain':    return head + 'p .a : b x=$v : F 1 | t', margin + [['p', [], [('class', 'a')], [['b', [], [('x', v)], [['fun', [1], [], [['T', 't']]]]]]]]
            if kind == 'br':       return head + 'br', margin + [['br', [], [], []]]
            if kind == 'null':     return head + '. | t', margin + [['null', [], [], [['T', 't']]]]
            if kind == 'none':     return head + 'if 0\n' + si + ' p\n' + si + 'elif None\n' + si + ' p', margin
            if kind == 'def' and self.control: return head + '-- c', margin
            if kind == 'def':      return head + '% D @b\n' + si + ' p\n' + si + '  @b', margin
            if kind == 'assign':   return head + '$ q = [v, w]', margin
            if kind == 'comment':  return head + '# p .a\n' + si + '    b', margin
            if kind == 'pass':     return head + 'pass', margin
            if kind == 'expr':     return head + '$ v.strip()', margin
            if kind == 'inlinefor': return head + 'for j in [v, w] | $j', margin + [['T', esc(v)], ['T', esc(w)]]
            raise AssertionError(kind)
        self.control += kind in CONTROL
        n = 'n%d' % self.n
        a, b = self.forest(shape, si + '  ')
        self.control -= kind in CONTROL
        if kind == 'tag':     return head + 'p a=$v' + a, margin + [['p', [], [('a', v)], b]]
        if kind == 'chain':   return head + 'p : b .k' + a, margin + [['p', [], [], [['b', [], [('class', 'k')], b]]]]
        if kind == 'null':    return head + '.' + a, margin + [['null', [], [], b]]
        if kind == 'if':      return head + 'if v' + a + '\n' + si + 'else\n' + si + '  u', margin + b
        if kind == 'else':    return head + 'if not v\n' + si + '  u\n' + si + 'else' + a, margin + b
        if kind == 'for':     return head + 'for j in [1,2]' + a, margin + b + b
        if kind == 'while':   return head + '$ ' + n + ' = 2\n' + si + 'while ' + n + a + '\n' + si + '  $ ' + n + ' -= 1', margin + b + b
        if kind == 'try':     return head + 'try' + a + '\n' + si + 'else\n' + si + '  u', margin + b
        if kind == 'tryfail': return head + 'try\n' + si + '  u\n' + si + '  | {1/0}\n' + si + 'else' + a, margin + b
        if kind == 'hyper':   return head + 'H $w z=1' + a, margin + [['H', [], [('x', w), ('z', 1)], [['div', [], [('class', 'h')], b]]]]
        if kind == 'hyper2':  return head + 'H z=$v x=2 : p' + a, margin + [['H', [], [('z', v), ('x', 2)], [['div', [], [('class', 'h')], [['p', [], [], b]]]]]]
        if kind == 'embed':   return head + 'A' + a, margin + [['A', [], [], b]]
        if kind == 'ext':     return head + 'F {w}' + a, margin + [['fun', [w], [], b]]
        raise AssertionError(kind)


def flat(node):
    """The node in the form used by the model."""
    if isinstance(node, DOM.Text): return ['M', len(node.text)] if node.margin else ['T', node.text]
    return [node.tag.name, list(node.attrs or []), list((node.kwattrs or {}).items()), [flat(n) for n in node.body]]

def lines(node, indent):
    """The node as printed by tree()."""
    if node[0] in 'TM': return indent + '<Text>\n'
    name, attrs, kwattrs, body = node
    return indent + name + ''.join([' %s' % a for a in attrs] + [' %s=%s' % (k, v) for k, v in kwattrs]) + '\n' + ''.join([lines(n, indent + '  ') for n in body])

T = []

def build(S, shape, leaf, inner, margins, any):
    v = 'v' + S.text('v', 1, VAL - NL if any else UPPER); w = 'w' + S.text('w', 1, UPPER)
    g = Gen(S, leaf, inner, v, w, margins)
    a, b = g.forest(shape, '')
    return PROLOG + '|z' + a, [['T', 'z']] + b, dict(__tags__={'F': EXT}, v=v, w=w)

def run(S, shape, leaf, inner, margins=False, any=True):
    script, want, ctx = build(S, shape, leaf, inner, margins, any)
    root = HyperHTML().translate(script, **ctx).dom
    got = [flat(n) for n in root.body]
    S.check(isinstance(root, DOM.Root) and got == want, 'nodes of the DOM', lambda: '\n%s\ngot      %r\nexpected %r' % (script[len(PROLOG):], got, want))
    t = root.tree()
    S.observe('tree', t)
    S.eq(t, '<Root>\n' + ''.join([lines(n, '  ') for n in want]), 'tree()')
    S.check(root.render() == render(script, **ctx), 'rendering of the DOM', lambda: '\n%s' % script)

@harness(quick=[{}], bounds='every kind of block (tags with all forms of attributes, native, external, custom and void tags, texts, control blocks, definitions, comments) at the top level; attribute values and texts with a symbolic character (any but a line break)')
def single(S):
    run(S, [T], LEAF, INNER, any=True)

@harness(quick=[{'inner': k} for k in INNER], bounds='every kind of block in every kind of enclosing block; attribute values and texts with a symbolic capital letter')
def blocks(S, inner):
    run(S, [[T]], LEAF, [inner], any=False)

@harness(quick=[{}], thorough=[{'shape': [[T], T]}, {'shape': [[[T], T]]}, {'shape': [[[[T]]]]}], bounds='three (thorough: four) levels of blocks of every kind')
def deeper(S, shape=None):
    run(S, shape or [[[T]]], ['attrs'], INNER, any=False)

@harness(quick=[{'shape': [[T], T]}, {'shape': [[T, T]]}], thorough=[{'shape': [[[T], T], T]}], bounds='up to two blank lines before each of up to three blocks, nested or one after another')
def margins(S, shape):
    run(S, shape, ['text', 'empty'], ['tag', 'if', 'for', 'hyper', 'try'], margins=True, any=False)

@harness(quick=[{}], bounds='tags are the very objects the names stand for: built-in, given in the context, renamed, imported from Python, local and null tags')
def identity(S):
    name = S.choice('name', ['F', 'G', 'F'])
    how = S.choice('how', ['as given', 'renamed'])
    t = TagFunction(fun)
    s = 'context %' + name + (' as K' if how == 'renamed' else '') + '\n' + ('K' if how == 'renamed' else name) + ' "1"\n  b\n  B\n  .\n  from os import $sep\n'
    m = HyperHTML().translate(s, __tags__={name: t})
    nodes = [n for n in m.dom.walk() if n.tag]
    from hypertag.builtins import __tags__ as std
    from hypertag.html import __tags__ as html
    from hypertag.core.tag import null
    S.check([n.tag.name for n in nodes] == ['fun', 'b', 'B', 'null'], 'names', lambda: '%r' % (nodes,))
    S.check(nodes[0].tag is t and nodes[1].tag is html['b'] and nodes[2].tag is html['B'] and nodes[3].tag is null, 'the tags themselves', lambda: '%r' % (nodes,))
    S.check(m.dom.body.select(t).nodes == [nodes[0]] and m.dom.body.select(null).nodes == [nodes[3]], 'selection by tag', '')

@harness(quick=[{}], thorough=[{'n': 3}], bounds='objects passed as attributes (lists, dicts, functions, DOM) are in the DOM themselves, neither copied nor converted; attribute values of n symbolic characters in positional and named attributes of native and external tags')
def values(S, n=1):
    v = S.text('v', n, VAL)
    x = S.choice('x', [lambda: [1], lambda: {}, lambda: None, lambda: len, lambda: 0.5, lambda: DOM()])()
    s = 'context %F, $x, $v\n%H a b="$v" c=$x\n  F a $c d=$b | $v\nH $x\nH {v} c=0 b=$x\nH c=$x a={[x, v]}\n'
    nodes = [k for k in HyperHTML().translate(s, __tags__={'F': EXT}, x=x, v=v).dom.walk() if k.tag]
    S.check(len(nodes) == 6, 'number of nodes', '')
    h1, f1, h2, f2, h3, f3 = nodes
    S.check(list(h1.kwattrs) == ['a'] and h1.kwattrs['a'] is x and not h1.attrs, 'positional attribute by name', lambda: '%r' % (h1.kwattrs,))
    S.check(f1.attrs[0] is x and f1.attrs[1] is x and list(f1.kwattrs.items()) == [('d', v)], 'attributes inside', lambda: '%r %r' % (f1.attrs, f1.kwattrs))
    S.check(list(h2.kwattrs) == ['a', 'c', 'b'] and h2['a'] == v and h2['c'] == 0 and h2['b'] is x, 'order of attributes', lambda: '%r' % (h2.kwattrs,))
    S.check(f2.attrs[0] == v and f2.attrs[1] == 0 and f2['d'] is x, 'attributes inside', lambda: '%r %r' % (f2.attrs, f2.kwattrs))
    S.check(list(h3.kwattrs) == ['c', 'a'] and h3['c'] is x and h3['a'][0] is x and h3['a'][1] == v, 'named attributes', lambda: '%r' % (h3.kwattrs,))
    S.check(h3.get('b') is None and h3.get('b', 5) == 5 and nodes[0].get('zz', x) is x, 'get()', '')

PARTS = [('@ b', lambda b: b), ('@ [n for n in b]', None), ('@ b[0]', lambda b: b[:1]), ('@ b[1]', lambda b: b[1:2]), ('@ b[0:2]', lambda b: b[:2]), ('@ [b[1], b[0]]', lambda b: [b[1], b[0]]), ('@ b[0].body', lambda b: b[0][3] if len(b[0]) == 4 else []),
         ('@ b\\n  @ b', lambda b: b + b), ('p\\n    @ b[1]', lambda b: [['p', [], [], b[1:2]]]), ('@ [b[0]]', lambda b: b[:1]), ('@ (b[0], b[0])', lambda b: b[:1] * 2), ('@ b.select("p")' if 0 else '@ b["null"]', lambda b: named(b, 'null')), ('@ b["p"]', lambda b: named(b, 'p')),
         ('if b\\n    @ b', lambda b: b), ('for n in b\\n    @ n', lambda b: b), ('@ []', lambda b: []), ('...@ b'.replace('...', ''), lambda b: b), ('. : @ b'.replace('. : @', '@'), lambda b: b), ('try\\n    @ b[9]\\n  else\\n    @ b[-1]', lambda b: b[-1:])]
PARTS = [(t.replace('\\n', '\n'), f) for t, f in PARTS if f]

def named(b, name):
    out = []
    for n in b:
        if len(n) == 4:
            if n[0] == name: out.append(n)
            out += named(n[3], name)
    return out

@harness(quick=[{}], thorough=[{'shapes': [[[T], [T]], [[[T]], T]]}], bounds='bodies of two blocks of any kind with a block inside, embedded in a hypertag as a whole or in part, once or twice: the DOM has the same nodes in the place of embedding')
def embedded(S, shapes=None):
    v, w = 'v' + S.text('v', 1, UPPER), 'w'
    g = Gen(S, ['text', 'empty'], ['tag', 'chain', 'null', 'hyper', 'ext'], v, w)
    a, b = g.forest(S.choice('shape', shapes) if shapes else [[T], T], '  ')
    src, f = S.choice('part', PARTS)
    script = PROLOG + '% Q @b\n  ' + src + '\n|z\ni : Q' + a
    r = S.run(lambda: HyperHTML().translate(script, __tags__={'F': EXT}, v=v, w=w).dom)
    S.check(r[0] == 'ok', 'embedding', lambda: '\n%s\n%r' % (script[len(PROLOG):], r))
    got = [flat(n) for n in r[1].body]
    want = [['T', 'z'], ['i', [], [], [['Q', [], [], f(b)]]]]
    S.check(got == want, 'nodes embedded', lambda: '\n%s\ngot      %r\nexpected %r' % (script[len(PROLOG):], got, want))
