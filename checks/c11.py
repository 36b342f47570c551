from checks.common import *
from checks.domtree import Shape, build, dump, ids, Mark
from hypertag import DOM, Tag, HyperHTML

def full(dom):
    """Everything that can be seen in a DOM, with layout and the rendering."""
    return (tuple([(n.__class__.__name__, n.tag.name if n.tag else None, tuple(n.attrs or ()), tuple(sorted((n.kwattrs or {}).items())), getattr(n, 'text', None), getattr(n, 'id', None), n.indent, bool(n.outline), bool(n.margin),
                  full(n.body) if n.body is not None else None) for n in dom.nodes]), dom.render())

def parts(dom):
    """Identities of all mutable parts."""
    out = [id(dom), id(dom.nodes)]
    for n in dom.nodes:
        out.append(id(n))
        if n.attrs is not None and n.attrs != (): out.append(id(n.attrs))
        if n.kwattrs is not None: out.append(id(n.kwattrs))
        if n.body is not None: out += parts(n.body)
    return out

def maker(S, sh, attrs=None):
    def make(i, body):
        if sh.text[i]: return DOM.Text('t%d\nu' % i, id=i, indent='  ' if i % 2 else None)
        kind = attrs[i] if attrs else 'full'
        if kind == 'full': return DOM.Node(body, tag=Mark('m%d' % i), attrs=[i, 'a'], kwattrs={'x': i, 'y': [i]}, indent='  ' if i % 2 else None, outline=i % 3 == 0, id=i)
        if kind == 'kw': return DOM.Node(body, tag=Mark('k'), kwattrs={'x': i, 'y': 'v'}, id=i)
        if kind == 'attrs': return DOM.Node(body, tag=Mark('a'), attrs=[i], id=i)
        if kind == 'bare': return DOM.Node(body, id=i, indent='\t')
        return DOM.Node(body, tag=Mark('e'), attrs=[], kwattrs={}, id=i, outline=True)
    return make

def find(dom, i):
    for n in dom.walk():
        if n.id == i: return n

MUT = ['append', 'remove', 'clear', 'body', 'kw', 'kwdel', 'kwnew', 'attr', 'attr0', 'text', 'indent', 'tag', 'setoutline', 'setindent', 'alter', 'nodes']

def mutate(node, how):
    if how == 'append': node.body.nodes.append(DOM.Text('new', id=99))
    elif how == 'remove': node.body.nodes[:] = node.body.nodes[1:]
    elif how == 'clear': del node.body.nodes[:]
    elif how == 'body': node.body = DOM()
    elif how == 'nodes': node.body.nodes = [DOM.Text('new', id=98)]
    elif how == 'kw' and node.kwattrs: node.kwattrs['x'] = 'changed'
    elif how == 'kwdel' and node.kwattrs: del node.kwattrs['x']
    elif how == 'kwnew' and node.kwattrs is not None: node.kwattrs['z'] = 'changed'
    elif how == 'attr' and node.attrs: node.attrs.append('more')
    elif how == 'attr0' and node.attrs: node.attrs[0] = 'changed'
    elif how == 'text' and getattr(node, 'text', None): node.text = 'changed'
    elif how == 'indent': node.indent = '    '
    elif how == 'tag': node.tag = Mark('changed')
    elif how == 'setoutline': node.set_outline(not node.outline)
    elif how == 'setindent': node.set_indent('' if node.indent else '  ')
    elif how == 'alter' and node.body: node.body.alter(lambda n: [])

@harness(quick=[{'n': n} for n in range(1, 4)], thorough=[{'n': 4}],
         bounds='all forests of up to 3 (thorough: 4) nodes of five kinds (three for the largest) or text; sixteen kinds of later modification, of any node, of the copy or of the original')
def isolation(S, n):
    sh = Shape(S, n)
    attrs = {i: S.choice('kind%d' % i, ['full', 'bare', 'kw'] if n > 2 else ['full', 'bare', 'empty', 'kw', 'attrs']) if not sh.text[i] else None for i in range(n)}
    dom = build(sh, maker(S, sh, attrs))
    before = full(dom)
    dup = dom.copy()
    S.check(full(dup) == before and full(dom) == before, 'equal and unmodified', lambda: '%r %r' % (before, full(dup)))
    a, b = parts(dom), parts(dup)
    S.check(not set(a) & set(b), 'no part is shared', lambda: '%r' % (before,))
    S.check([type(x) for x in dup.walk()] == [type(x) for x in dom.walk()], 'same classes', '')
    which = S.pick('which', n)
    how = S.choice('how', MUT if n < 3 else MUT[:1] + MUT[4:6] + MUT[7:8] + MUT[9:10] + MUT[14:])
    if S.flag('copy'): touched, other = dup, dom
    else: touched, other = dom, dup
    mutate(find(touched, which), how)
    S.check(full(other) == before, 'isolated', lambda: '%s of node %d: %r -> %r' % (how, which, before, full(other)))
    S.check(full(other.copy()) == before, 'copy of the copy', '')
    if n < 3 and S.flag('node'):
        node = find(other, which)
        one = node.copy()
        S.check(full(DOM(one)) == full(DOM(node)) and not set(parts(DOM(one))[2:]) & set(parts(dom) + parts(dup)), 'copy of a node', lambda: '%r' % (before,))

# what a transform does with a node
TR = ['keep', 'drop', 'dup', 'replace', 'around', 'wrap', 'unwrap']

class Plan(object):
    def __init__(self, S, options, result):
        self.S, self.options, self.chosen, self.result, self.calls, self.skips, self.first = S, options, {}, result, [], {}, {}
    def do(self, i):
        if i >= 100: return 'keep'
        if i not in self.chosen: self.chosen[i] = self.first[i] = self.S.choice('do%d' % i, self.options)
        return self.chosen[i]
    def skip(self, i):
        if i >= 100: return False
        if i not in self.skips: self.skips[i] = self.S.flag('skip%d' % i)
        return self.skips[i]
    # the real transform
    def transform(self, node):
        self.calls.append(node.id)
        out = self.out(node)
        if self.result == 'list': return out
        if self.result == 'tuple': return tuple(out)
        if self.result == 'dom': return DOM(*out)
        if self.result == 'nested': return [None] + [[x] for x in out]
        return (x for x in out)
    def out(self, node):
        do = self.do(node.id)
        if do == 'keep': return [node]
        if do == 'drop': return []
        if do == 'dup':
            c = node.copy()
            for x in DOM(c).walk(): x.id = x.id + 100
            return [node, c]
        if do == 'replace': return [DOM.Node(DOM(DOM.Text('r', id=200 + node.id)), tag=Mark('r'), id=100 + node.id)]
        if do == 'around': return [DOM.Text('b', id=300 + node.id), node, DOM.Text('e', id=400 + node.id)]
        if do == 'wrap':
            self.chosen[node.id] = 'keep'
            return [DOM.Node(DOM(node), id=500 + node.id)]
        if do == 'unwrap': return list(node.body.nodes) if node.body else []

# the reference works on lists [id, children]
def rcopy(t): return [t[0] + 100, [rcopy(c) for c in t[1]]]
def rout(plan, chosen, t):
    do = 'keep' if t[0] >= 100 else chosen[t[0]]
    if do == 'keep': return [t]
    if do == 'drop': return []
    if do == 'dup': return [t, rcopy(t)]
    if do == 'replace': return [[100 + t[0], [[200 + t[0], []]]]]
    if do == 'around': return [[300 + t[0], []], t, [400 + t[0], []]]
    if do == 'wrap':
        chosen[t[0]] = 'keep'
        return [[500 + t[0], [t]]]
    if do == 'unwrap': return list(t[1])

def ralter(plan, chosen, calls, trees, order, skip):
    if order == 'postorder':
        for t in trees:
            if not skip(t[0]): t[1] = ralter(plan, chosen, calls, t[1], order, skip)
    out = []
    for t in trees:
        calls.append(t[0])
        out += rout(plan, chosen, t)
    if order == 'preorder':
        for t in out:
            if not skip(t[0]): t[1] = ralter(plan, chosen, calls, t[1], order, skip)
    return out

def tree(dom): return [[n.id, tree(n.body) if n.body is not None else []] for n in dom.nodes]

@harness(quick=[{'n': n, 'order': o, 'set': k} for o in ('preorder', 'postorder', None) for n, k in ((1, 0), (2, 0), (3, 0), (3, 1), (3, 2))], thorough=[{'n': n, 'order': o, 'set': k} for o in ('preorder', 'postorder') for n, k in ((3, 3), (4, 1), (4, 4))],
         bounds='all forests of up to 3 (thorough: 4) nodes; per node the transform keeps, drops, duplicates, replaces, surrounds, wraps or unwraps it; any subset of nodes skipped; results as lists, tuples, DOMs, nested lists or generators; both orders and the default')
def alter(S, n, order, set):
    sh = Shape(S, n, texts=n < 3)
    dom = build(sh, maker(S, sh))
    options = [['keep', 'drop', 'dup'], ['keep', 'replace', 'around'], ['keep', 'wrap', 'unwrap'], TR, ['keep', 'drop']][set]
    if n < 3: options = TR if order != 'postorder' else [x for x in TR if x != 'wrap']
    if order == 'postorder': options = [x for x in options if x != 'unwrap']
    result = S.choice('result', ['list', 'gen', 'tuple', 'dom', 'nested'] if order else ['gen']) if n < 3 else 'gen' if set % 2 else 'list'
    skips = S.flag('skips') if n < 3 or set == 0 else False
    plan = Plan(S, options, result)
    chosen = {}
    t = tree(dom)
    kw = {} if order is None else {'order': order}
    if skips: kw['skip'] = lambda node: plan.skip(node.id)
    r = S.run(dom.alter, plan.transform, **kw)
    for i in range(n): chosen[i] = plan.first.get(i, 'keep')
    S.check(r[0] == 'ok' and r[1] is dom, 'returns the DOM', lambda: '%r' % (r,))
    calls = []
    want = ralter(plan, dict(chosen), calls, t, order or 'preorder', plan.skip if skips else (lambda i: False))
    S.check(tree(dom) == want, 'transformed tree', lambda: '%s %r %r got %r expected %r' % (order, sh.kids, chosen, tree(dom), want))
    S.check(sorted(plan.calls) == sorted(calls), 'called for each node', lambda: '%s %r %r got %r expected %r' % (order, sh.kids, chosen, plan.calls, calls))
    # parents before (after) their descendants, siblings in order
    pos = {}
    for k, i in enumerate(plan.calls):
        if i not in pos: pos[i] = k
    for i in range(n):
        for prev, j in zip([None] + sh.kids[i], sh.kids[i]):
            if i in pos and j in pos: S.check((pos[i] < pos[j]) == (order != 'postorder'), 'order of calls', lambda: '%s %r %r' % (order, sh.kids, plan.calls))
            if prev in pos and j in pos: S.check(pos[prev] < pos[j], 'order of siblings', lambda: '%s %r %r' % (order, sh.kids, plan.calls))

@harness(quick=[{'n': n} for n in range(4)], thorough=[{'n': 4}],
         bounds='all forests of up to 3 (thorough: 4) nodes with symbolic tag names and attribute values; five forms of constraints; the result may be modified afterwards')
def skipping(S, n):
    sh = Shape(S, n, texts=n < 3)
    pq = RangeSet.of('pq')
    name, val, tags = {}, {}, {}
    for i in range(n):
        name[i] = None if sh.text[i] else S.text('tag%d' % i, 1, pq)
        val[i] = S.text('x%d' % i, 1, pq) if not sh.text[i] and S.flag('has%d' % i) else None
        tags[i] = Mark(name[i]) if name[i] is not None else None
    def make(i, body):
        if sh.text[i]: return DOM.Text('t%d' % i, id=i)
        return DOM.Node(body, tag=tags[i], attrs=[i], kwattrs={'x': val[i]} if val[i] is not None else None if i % 2 else {}, id=i, outline=True, indent='  ')
    dom = build(sh, make)
    before = full(dom)
    form = S.choice('form', ['name', 'attr', 'kw', 'name+kw', 'value', 'tag', 'all'])
    k, v = S.text('name', 1, pq), S.text('value', 1, pq)
    first = S.pick('obj', n) if n and form == 'tag' else 0
    obj = tags.get(first) or Mark('p')
    args, kw, test = {
        'name': ((k,), {}, lambda i: name[i] is not None and name[i] == k),
        'attr': ((None, 'x'), {}, lambda i: val[i] is not None),
        'kw': ((), {'x': v}, lambda i: val[i] is not None and val[i] == v),
        'name+kw': ((k,), {'x': v}, lambda i: name[i] is not None and name[i] == k and val[i] is not None and val[i] == v),
        'value': ((None, 'x', v), {}, lambda i: val[i] is not None and val[i] == v),
        'tag': ((obj,), {}, lambda i: tags[i] is obj),
        'all': ((), {}, lambda i: True),
    }[form]
    r = S.run(dom.skip, *args, **kw)
    S.check(r[0] == 'ok' and isinstance(r[1], DOM), 'skip', lambda: '%r %r' % (before, r))
    S.check(full(dom) == before, 'original not modified', lambda: '%r' % (before,))
    def keep(t): return [[c[0], keep(c[1])] for c in t if not test(c[0])]
    S.check(tree(r[1]) == keep(tree(dom)), 'subtrees removed', lambda: '%r %r %r: %r' % (before, args, kw, tree(r[1])))
    orig = {x.id: x for x in dom.walk()}
    for x in r[1].walk():
        o = orig[x.id]
        S.check(x is not o and x.tag is o.tag and x.attrs == o.attrs and (x.kwattrs or {}) == (o.kwattrs or {}) and getattr(x, 'text', None) == getattr(o, 'text', None) and (x.indent, x.outline) == (o.indent, o.outline), 'copies of the nodes', lambda: '%r' % (before,))
    S.check(not set(parts(r[1])) & set(parts(dom)), 'no part is shared', '')

SCRIPTS = ['div\n  p .a | =T\n\n  ul\n\n    li : i | x\n    li\n      | =T\n  b\n\n| end\n', 'p =A\n| =T\np\n\tdiv\n\t\tp | =T\n\t\tb | y\n', '% H @b c=1\n  div\n    @b\n    | $c\nH "=T"\n  p | =T\n  H : b\n    i | z\nb : p\n  | =T\n  / <x>\n',
           'for i in [1,2]\n  div : b\n\n    p | =T$i\n    H2 title="=T" | $i\n'.replace('H2', 'h2'), '/ <a>\nif 1\n  div\n    ! {=T}\n    .\n      p\n        | =T\n# c\nbr\n', '< p\n  | =T\n  ... i | u\n  div\n\n    | b\n']
@harness(quick=[{'i': i} for i in range(len(SCRIPTS))], bounds='DOM of six rendered scripts with two symbolic characters of text: copies render identically, before and after changes of the other; skip of a symbolic tag name equals the removal of those blocks')
def translated(S, i):
    t = S.text('t', 2, PLAIN - WS)
    s = fill(SCRIPTS[i].replace('=A', 'title="v"'), t, '=T') if i != 1 and i != 2 and i != 3 else fill(SCRIPTS[i].replace('=A', 'title="v"'), S.text('u', 2, LOWER), '=T')
    root = HyperHTML().translate(s).dom
    want = root.render()
    dom = DOM(root)
    dup = dom.copy()
    S.check(dup.render() == want, 'copy renders identically', lambda: '\n%s\n%r %r' % (s, want, dup.render()))
    name = S.choice('name', ['p', 'b', 'div', 'li', 'i', 'H', 'nothing'])
    cut = dom.skip(name)
    S.check(dom.render() == want and dup.render() == want, 'unmodified', lambda: '\n%s' % s)
    S.check(not len(cut.select(name)) and [n.tag.name for n in cut.walk() if n.tag] == [n.tag.name for n in dom.walk(lambda n: n.tag is not None and n.tag.name == name) if n.tag], 'removed exactly', lambda: '\n%s\n%s' % (s, cut.render()))
    dup.alter(lambda n: [] if n.tag is not None and n.tag.name == name else [n])
    S.check(dup.render() == cut.render() and dom.render() == want, 'alter of a copy', lambda: '\n%s\n%r %r' % (s, dup.render(), cut.render()))
    S.check(root.copy().render() == want, 'copy of the root', '')

INS = [('@ b', '@ b.copy()'), ('@ b.skip("p")', '@ b.skip("p").copy()'), ('@ b.skip("p")\n  @ b', '@ b.copy().skip("p")\n  @ b.copy()'), ('@ b["p"]', '@ b.copy()["p"]'), ('@ b[0]', '@ b[0].copy()'), ('div\n    @ b.skip("i")\n  | =', 'div\n    @ b.copy().skip("i").skip("i")\n  | =')]
BODIES = ['p | a\ndiv\n  p\n    | b\n  i | c', 'p\n\n  i | a\n\n| b\ni : p | c', '| a\n  b\np : i\n\n  p | c', 'div\n  i | x\n  p']
@harness(quick=[{}], bounds='copies and skips of the body inside a definition: six pairs x four bodies; one symbolic character')
def embedded(S):
    a, b = S.choice('ins', INS)
    body = S.choice('body', BODIES).replace('| a', '| a' + S.text('t', 1, PLAIN - WS))
    def script(e): return '% H @b\n  ' + e + '\n  | -\nH\n' + ''.join(['  ' + l + '\n' for l in body.split('\n')]) + '| end\n'
    x, y = S.run(render, script(a)), S.run(render, script(b))
    S.check(x[0] == 'ok' and y[0] == 'ok' and x[1] == y[1], 'same rendering', lambda: '\n%s\n%r\n%s\n%r' % (script(a), x, script(b), y))
