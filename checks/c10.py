from checks.common import *
from checks.domtree import Shape, build, dump, ids, Mark
from hypertag import DOM, Tag, HyperHTML

@harness(quick=[{'n': n, 'order': o} for n in range(6) for o in ('preorder', 'postorder')], thorough=[{'n': n, 'order': o} for n in (6, 7) for o in ('preorder', 'postorder')],
         bounds='all forests of up to 5 (thorough: 7) nodes, text or not; skip: any subset of nodes')
def walk(S, n, order):
    sh = Shape(S, n, texts=n < 5)
    dom = build(sh, lambda i, body: DOM.Text('t', id=i) if sh.text[i] else DOM.Node(body, id=i))
    before = dump(dom)
    stop = {}
    def skip(i):
        if i not in stop: stop[i] = S.flag('skip%d' % i)
        return stop[i]
    got = ids(dom.walk(order=order))
    want = sh.pre() if order == 'preorder' else sh.post()
    S.check(got == want, 'walk', lambda: '%r %r expected %r' % (sh.kids, got, want))
    got = ids(dom.walk(lambda node: skip(node.id), order))
    want = (sh.pre if order == 'preorder' else sh.post)(-1, skip)
    S.check(got == want, 'walk with skip', lambda: '%r %r %r expected %r' % (sh.kids, stop, got, want))
    S.check(dump(dom) == before, 'nothing is modified', '')
    if n: S.check(ids(dom.nodes[-1].walk(order=order)) == [i for i in (sh.pre() if order == 'preorder' else sh.post()) if i >= sh.kids[-1][-1]], 'walk of a node', '')
    if order == 'preorder': S.check(ids(dom.walk()) == sh.pre(), 'default order', '')

VALUES = ['', 0, None, 'v', False]

class World(object):
    """A DOM whose tags and attributes are symbolic."""
    def __init__(self, S, n, kinds):
        self.S, self.n = S, n
        pq = RangeSet.of('pq')
        self.sh = Shape(S, n, texts=False)
        self.tags, self.name, self.kw, self.kind = {}, {}, {}, {}
        for i in range(n):
            self.kind[i] = S.choice('kind%d' % i, kinds)
            self.name[i] = S.text('tag%d' % i, 1, pq) if self.kind[i] != 'text' and self.kind[i] != 'root' else None
            self.tags[i] = Mark(self.name[i]) if self.name[i] is not None else None
            self.kw[i] = {}
            if self.kind[i] == 'x' or self.kind[i] == 'xy': self.kw[i]['x'] = S.text('x%d' % i, 1, pq)
            if self.kind[i] == 'y' or self.kind[i] == 'xy': self.kw[i]['y'] = S.text('y%d' % i, 1, pq)
        self.dom = build(self.sh, self.make)
    def make(self, i, body):
        if self.kind[i] == 'text' and not len(body): return DOM.Text('t', id=i)
        if self.kind[i] == 'root': return DOM.Root(body, id=i)
        if self.kind[i] == 'bare' or self.kind[i] == 'text': return DOM.Node(body, tag=self.tags[i], id=i)
        if self.kind[i] == 'empty': return DOM.Node(body, tag=self.tags[i], attrs=[], kwattrs={}, id=i)
        return DOM.Node(body, tag=self.tags[i], attrs=['pos'], kwattrs=dict(self.kw[i]), id=i)

FORMS = ['name', 'tag', 'attr', 'attr=', 'kw', 'kw2', 'name+attr', 'name+kw', 'all', 'attr+kw', 'none', 'positional']

@harness(quick=[{'form': f, 'n': 3} for f in range(len(FORMS))], thorough=[{'form': f, 'n': 4} for f in range(len(FORMS))],
         bounds='all forests of 3 (thorough: 4) nodes of five kinds with symbolic tag names and attribute values; twelve forms of constraints with symbolic names and values; both orders')
def select(S, form, n):
    form = FORMS[form]
    w = World(S, n, ['bare', 'x'] if n > 3 else ['text', 'xy'] if form in ('all', 'name+kw', 'kw2') else ['text', 'bare', 'x', 'xy'] if form in ('attr', 'none', 'tag') else ['text', 'bare', 'x'])
    pq = RangeSet.of('pq')
    name, value = S.text('name', 1, pq), S.text('value', 1, pq)
    order = 'preorder' if S.flag('pre') else 'postorder'
    which = S.pick('which', n) if form == 'tag' else 0
    obj = w.tags[which] or Mark('p')
    has = lambda i, a: a in w.kw[i]
    val = lambda i, a, v: a in w.kw[i] and w.kw[i][a] == v
    args, kw, test = {
        'name': ((name,), {}, lambda i: w.name[i] is not None and w.name[i] == name),
        'tag': ((obj,), {}, lambda i: w.tags[i] is obj),
        'attr': ((None, 'x'), {}, lambda i: has(i, 'x')),
        'attr=': ((), {'attr': 'x', 'value': value}, lambda i: val(i, 'x', value)),
        'kw': ((), {'x': value}, lambda i: val(i, 'x', value)),
        'kw2': ((), {'x': value, 'y': name}, lambda i: val(i, 'x', value) and val(i, 'y', name)),
        'name+attr': ((name, 'y'), {}, lambda i: w.name[i] is not None and w.name[i] == name and has(i, 'y')),
        'name+kw': ((name,), {'x': value}, lambda i: w.name[i] is not None and w.name[i] == name and val(i, 'x', value)),
        'all': ((name, 'x', value), {'y': name}, lambda i: w.name[i] is not None and w.name[i] == name and val(i, 'x', value) and val(i, 'y', name)),
        'attr+kw': ((), {'attr': 'y', 'x': value}, lambda i: has(i, 'y') and val(i, 'x', value)),
        'none': ((), {}, lambda i: True),
        'positional': ((), {'pos': 'pos'}, lambda i: False),
    }[form]
    before = dump(w.dom)
    r = S.run(w.dom.select, *args, **dict(kw, order=order))
    S.check(r[0] == 'ok' and isinstance(r[1], DOM), 'select', lambda: '%r' % (r,))
    seq = w.sh.pre() if order == 'preorder' else w.sh.post()
    want = [i for i in seq if test(i)]
    S.check(ids(r[1].nodes) == want, 'selected nodes', lambda: '%r %r %r got %r expected %r' % (before, args, kw, ids(r[1].nodes), want))
    S.check(dump(w.dom) == before, 'nothing is modified', '')
    same = {node.id: node for node in w.dom.walk()}
    S.check(all([same[node.id] is node for node in r[1].nodes]), 'the nodes themselves are returned', '')
    if order == 'preorder' and form in ('name', 'tag'): S.check(ids(w.dom[args[0]].nodes) == want, 'index by tag', '')
    if order == 'preorder': S.check(ids(w.dom.select(*args, **kw).nodes) == want, 'default order', '')

@harness(quick=[{}], bounds='attribute values that are false, equal across types, or of any kind; names present with such values')
def odd_values(S):
    n = 3
    vals = [S.choice('v%d' % i, ['', 0, None, 'v', False, 1, True, ('a',)]) for i in range(2)]
    look = S.choice('look', ['', 0, None, 'v', False, 1, True, ('a',)])
    a = DOM.Node(None, tag=Mark('p'), kwattrs={'x': vals[0]}, id=0)
    b = DOM.Node(DOM(a, DOM.Text('t', id=2)), tag=Mark('q'), kwattrs={'x': vals[1], 'y': vals[0]}, id=1)
    dom = DOM(b)
    want = [i for i in (1, 0) if vals[i] == look]
    S.check(ids(dom.select(x=look).nodes) == want, 'value of any kind', lambda: '%r %r got %r' % (vals, look, ids(dom.select(x=look).nodes)))
    S.check(ids(dom.select(attr='x', value=look).nodes) == want, 'value of any kind', lambda: '%r %r' % (vals, look))
    S.check(ids(dom.select(attr='x').nodes) == [1, 0] and ids(dom.select(attr='y').nodes) == [1], 'presence of an attribute', '')
    S.check(ids(dom.select('p', attr='x', value=look).nodes) == [i for i in want if i == 0], 'tag and value', '')

@harness(quick=[{'n': n} for n in range(5)], bounds='indexing by numbers and slices of DOMs of up to 4 top-level nodes; all indices from -5 to 5, all slices over -2..5 and None')
def indexing(S, n):
    dom = DOM(*[DOM.Node(DOM(DOM.Text('t', id=100 + i)), id=i) for i in range(n)])
    nodes = list(range(n))
    i = S.int('i', -5, 5)
    r, w = S.run(lambda: dom[i]), S.run(lambda: nodes[i])
    if w[0] == 'err': S.check(r[0] == 'err' and isinstance(r[1], IndexError), 'index out of range', lambda: '%r %r' % (i, r))
    else: S.check(r[0] == 'ok' and isinstance(r[1], DOM.Node) and r[1].id == w[1], 'index', lambda: '%r %r %r' % (i, r, w))
    a, b, c = S.choice('a', [None, 0, 1, -2, 3]), S.choice('b', [None, 0, 2, -1, 5]), S.choice('c', [None, 1, 2, -1])
    d = dom[a:b:c]
    S.check(isinstance(d, DOM) and ids(d.nodes) == nodes[a:b:c], 'slice', lambda: '%r %r' % ((a, b, c), d.nodes))
    S.check(len(dom) == n and ids(list(dom)) == nodes and bool(dom) == (n > 0), 'length and iteration', '')
    S.check(ids(d.walk()) == [x for k in nodes[a:b:c] for x in (k, 100 + k)], 'slice is a DOM', lambda: '%r' % (ids(d.walk()),))
    d.nodes.append(DOM.Text('more', id=7))
    S.check(len(dom) == n, 'a slice has a list of nodes of its own', '')

@harness(quick=[{}], bounds='flattening: nested lists, DOMs, generators and None up to depth 3 give the nodes in order; anything else is an error')
def construction(S):
    k = [0]
    def node():
        k[0] += 1
        return DOM.Text('t', id=k[0])
    bad = [False]
    def item(depth, name):
        form = S.choice(name, ['node', 'none', 'list', 'dom', 'gen', 'bad'] if depth else ['node', 'none', 'bad'])
        if form == 'node': return node()
        if form == 'none': return None
        if form == 'bad':
            bad[0] = True
            return S.choice(name + 'x', ['text', 5, {}])
        a = [item(depth - 1, name + 'a')] if not bad[0] else []
        if not bad[0]: a.append(node())
        if form == 'list': return a
        if form == 'dom': return DOM(*a, _strict=not bad[0])
        return (x for x in a)
    items = [item(2, 'i')]
    if not bad[0]: items.append(item(1, 'j'))
    r = S.run(DOM, *items)
    if bad[0]: S.check(r[0] == 'err' and isinstance(r[1], TypeError), 'not a node', lambda: '%r' % (r,))
    else: S.check(r[0] == 'ok' and ids(r[1].nodes) == list(range(1, k[0] + 1)), 'nodes in order', lambda: '%r %d' % (r, k[0]))

@harness(quick=[{}], bounds='selection in the DOM of a rendered script: native, markup, external and null tags, text, verbatim, comments, margins; symbolic tag name and class')
def translated(S):
    lower = RangeSet.of('bipu')
    t1, t2 = S.text('t1', 1, lower), S.text('t2', 1, lower)
    c1, c2 = S.text('c1', 1, RangeSet.of('mn')), S.text('c2', 1, RangeSet.of('mn'))
    s = '% H @b c\n  ' + t1 + ' .' + c2 + '\n    @b\n  | x\n' + t1 + ' .' + c1 + ' #k\n  ' + t2 + ' .' + c2 + ' : i\n    | text\n  ! verb\n\n  # comment\n  .\n    ' + t2 + ' | z\nH "1"\n  ' + t2 + ' title="q"\nif 1\n  ' + t1 + ' | w\nbr\n'
    dom = HyperHTML().translate(s).dom
    dom = dom if isinstance(dom, DOM) else DOM(dom)
    seq = [('br', None)]
    name = S.text('name', 1, lower)
    # in document order: tag and class
    all_ = [(t1, c1), (t2, c2), ('i', None), ('null', None), (t2, None), ('H', None), (t1, c2), (t2, None), (t1, None), ('br', None)]
    got = [(node.tag.name, node.get('class')) for node in dom.walk() if node.tag]
    S.check(got == all_, 'all tags in document order', lambda: '\n%s\n%r\n%r' % (s, got, all_))
    r = S.run(dom.select, name)
    S.check(r[0] == 'ok' and [(node.tag.name, node.get('class')) for node in r[1]] == [x for x in all_ if x[0] == name], 'by name', lambda: '\n%s\n%r %r' % (s, name, r))
    r = S.run(lambda: dom.select(attr='class', value=c1))
    S.check(r[0] == 'ok' and len(r[1]) == len([x for x in all_ if x[1] is not None and x[1] == c1]), 'by class', lambda: '\n%s\n%r' % (s, r))
    r = S.run(lambda: dom.select('H', c='1'))
    S.check(r[0] == 'ok' and len(r[1]) == 1, 'native tag by attribute', lambda: '%r' % (r,))
    r = S.run(lambda: dom.select(title='q'))
    S.check(r[0] == 'ok' and [n.tag.name for n in r[1]] == [t2], 'by title', lambda: '%r' % (r,))
