from checks.common import *
from hypertag import Tag, TagFunction, DOM
from hypertag.core.errors import HError

def indent(s, ind):
    return '\n'.join([ind + l if l.strip() else l for l in s.split('\n')])

def put(template, body, mark='@B'):
    """The reference: every line that consists of the mark is replaced with the body, indented like the mark."""
    out = []
    for l in template.split('\n'):
        if l.strip() == mark:
            if body is not None: out.append(indent(body, l[:len(l) - len(l.lstrip())]))
        else: out.append(l)
    return '\n'.join(out)

# definitions; @B marks the place of embedding
DEFS = ['@B', 'div\n  @B', '| first\n@B\n| last', '@B\n@B', 'p\n  @B\ndiv\n  section\n      @B\n| end', '| nothing', 'for i in [1,2]\n  @B', 'if 1\n  div\n    @B\nelse\n  @B', 'try\n  @B\n  | {1/0}\nelse\n  b\n    @B',
        'div title="x" : p\n  @B\n  i | k', '| a\n\ndiv\n\n  @B\n\n| b', '.\n  @B\n  .\n    div\n      @B', 'div\n\t@B\n\t@B', 'while nn(3)\n  p\n    @B', '/ <i>raw</i>\n@B\n! {raw}']
BODIES = ['| =T', 'p\n  | =T', '| =T\n  sub\n    sub', 'p | =T\ndiv\n  i | x\n  b\n    | =T', 'p\n\n  | =T\n\n\ndiv\n\n  | u', 'div : p : i | =T', 'K\n  | =T', 'K : p | =T', 'K\n  K\n    p\n      | =T', 'br\np title="=T"\n/ <b>=T</b>', 'for i in [1,2]\n  p | $i=T',
          '! {$=T}', 'p\n\t| =T\n\tdiv\n\t\t| =T', 'K : K : i\n  | =T\n  | =T', 'pass\np | =T\n# comment =T\n. \n  | x'.replace('. \n', '.\n'), 'if 1\n  | =T\n  p | x\ntry\n  | {1/0}\nelse\n  K | =T']
PLACES = ['@U', 'div\n  @U', '| a\n\n@U\n\n| b', 'p\n  div\n      @U\n  | x', 'for j in [1,2]\n  @U', 'K\n  @U', 'ul\n\tli\n\t\t@U\n\t| z', '< div\n  @U', 'if 1\n  | q\n  @U\nelse\n  @U']
KDEF = '% K @k\n  section\n    @k\n  | k.\n'

class Counter(object):
    def __init__(self): self.n = {}
    def nn(self, m):
        k = self.n['n'] = self.n.get('n', 0) + 1
        return k % m != 0

def show(S, s, **ctx):
    c = Counter()
    return S.run(render_ctx, s, nn=c.nn, **ctx)

def compare(S, got, want, s, what):
    S.check(got[0] == 'ok' and want[0] == 'ok' and got[1] == want[1], what, lambda: '\n%s\n got %r\n expected %r' % (s, got, want))

def tabs(s): return '\t' in s

def decide(S, d, b, p, text, what):
    if tabs(d + b + p) and (tabs(d) + tabs(b) + tabs(p)) != (('  ' not in d) + ('  ' not in b) + ('  ' not in p)) and any(['  ' in x for x in (d, b, p)]): return
    b = fill(b, text, 'T')
    use = put(p, 'H\n' + indent(b, '  ' if not tabs(d + b + p) else '\t'), '@U')
    s = KDEF + '% H @b\n' + indent(d, '  ' if not tabs(d + b + p) else '\t').replace('@B', '@b') + '\n' + use + '\n| tail\n'
    want = KDEF + put(p, put(d, b), '@U') + '\n| tail\n'
    compare(S, show(S, s), show(S, want), s, what)


@harness(quick=[{'d': i} for i in range(len(DEFS))], bounds='15 forms of a definition (no, one, two or three embeddings at various depths, in loops, branches, try) x 16 forms of a body x 2 (thorough: 9) places of use; one symbolic character of text',
         thorough=[{'d': i, 'places': 9} for i in range(len(DEFS))])
def inlining(S, d, places=2):
    b = S.choice('b', BODIES)
    p = S.choice('p', PLACES[:places] if places > 2 else [PLACES[2], PLACES[3]])
    decide(S, DEFS[d], b, p, S.text('t', 1, UPPER), 'embedded body')

@harness(quick=[{'p': i} for i in range(len(PLACES))], bounds='9 places of use x 5 definitions x 6 bodies; text of two symbolic characters')
def places(S, p):
    d = S.choice('d', [DEFS[i] for i in (1, 3, 4, 10, 12)])
    b = S.choice('b', [BODIES[i] for i in (0, 2, 4, 7, 12, 13)])
    decide(S, d, b, PLACES[p], S.text('t', 2, UPPER), 'embedded body')

HEADS = [('H | =T', '| =T'), ('H / =T', '/ =T'), ('H ! =T', '! =T'), ('H : p | =T', 'p | =T'), ('H | =T\n  p | x', None), ('div : H | =T', None), ('H : p : i\n  | =T', 'p : i\n  | =T'), ('H : K | =T', 'K | =T'), ('H', None)]
@harness(quick=[{}], bounds='bodies given inline, after a chain of tags, or missing')
def headlines(S):
    use, b = S.choice('h', [h for h in HEADS if h[1]])
    d = S.choice('d', [DEFS[i] for i in (0, 1, 2, 3, 4, 9, 10, 11)])
    t = S.text('t', 2, UPPER)
    s = KDEF + '% H @b\n' + indent(d, '  ').replace('@B', '@b') + '\n' + fill(use, t, 'T') + '\n| tail\n'
    want = KDEF + put(d, fill(b, t, 'T')) + '\n| tail\n'
    compare(S, show(S, s), show(S, want), s, 'inline body')
    s2 = s.replace(fill(use, t, 'T'), 'H')
    want2 = KDEF + put(d, 'pass') + '\n| tail\n'
    g, w = show(S, s2), show(S, want2)
    S.check(g[0] == 'ok' and w[0] == 'ok' and g[1].split() == w[1].split(), 'no body', lambda: '\n%s\n got %r\n expected %r' % (s2, g, w))

@harness(quick=[{}], bounds='chains of 2-4 tags, native or markup, with inline or nested body, at two depths')
def chains(S):
    n = 2 + S.pick('n', 3)
    tags = [S.choice('t%d' % i, ['p', 'D', 'E']) for i in range(n)]
    form = S.choice('form', ['inline', 'block', 'none'])
    deep = S.flag('deep')
    t = S.text('x', 1, UPPER)
    body = {'inline': ' | =' + t, 'block': '\n  | =' + t + '\n  i | k', 'none': ''}[form]
    s = ' : '.join(tags) + body
    if deep: s = 'ul\n' + indent(s, '  ')
    s = '% D @b\n  div\n    @b\n% E @b x=1\n  @b\n  i\n    @b\n' + s
    r = S.run(render, s)
    S.check(r[0] == 'ok', 'chain', lambda: '\n%s\n%r' % (s, r))
    def ref(tags):
        if not tags: return {'inline': '=' + t, 'block': '=' + t + '<i>k</i>', 'none': ''}[form]
        x = ref(tags[1:])
        if tags[0] == 'p': return '<p>' + x + '</p>'
        if tags[0] == 'D': return '<div>' + x + '</div>'
        return x + '<i>' + x + '</i>'
    want = ref(tags)
    if deep: want = '<ul>' + want + '</ul>'
    got = r[1].replace('\n', '').replace(' ', '')
    S.check(got == want, 'chain of tags', lambda: '\n%s\n got %r\n expected %r' % (s, got, want))

@harness(quick=[{}], bounds='the body is evaluated once, before the hypertag and in its order, however many times it is embedded')
def once(S):
    d = S.choice('d', DEFS)
    form = S.choice('f', ['| =b{e()}', 'p : i | =b{e()}', 'for i in [0]\n  | =b{e()}', 'K\n  | =b{e()}'])
    log = []
    s = KDEF + '% H @b x=1\n' + indent(d, '  ').replace('@B', '@b').replace('  \t', '    ') + '\n  | {h()}\nH {a()}\n' + indent(form, '  ') + '\n'
    s = s.replace('\t', '  ')
    r = show(S, s, e=lambda: log.append('e') or '', h=lambda: log.append('h') or '', a=lambda: log.append('a') or 'x')
    S.check(r[0] == 'ok' and sorted(log) == ['a', 'e', 'h'] and log[-1] == 'h', 'evaluations', lambda: '%s %r %r' % (s, r, log))
    copies = {0: 1, 2: 1, 3: 2, 4: 2, 5: 0, 6: 2, 7: 1, 8: 1, 11: 2, 12: 2, 13: 2}.get(DEFS.index(d), 1)
    S.check(r[1].count('=b') == copies, 'number of copies', lambda: '%s %r' % (s, r))

QUERIES = ['b', 'b[0]', 'b[1]', 'b[-1]', 'b[1:]', 'b[:2]', 'b[::2]', 'b[::-1]', 'b["p"]', 'b["i"]', 'b["zz"]', 'b[5:]', '[b[1], b[0]]', '[b[0], b[0]]', '(b[1:], b[0])', 'b[0], b', '[]', 'b["div"]', 'b.select("p")', 'b[0].body', 'b["p"][0].body', 'b.skip("p")', 'b[1:][0]', 'b["p"][1:]', '[x for]', 'b.copy()', 'b[n]', 'b[n:m]', 'pick(b)']
QUERIES = [q for q in QUERIES if q != '[x for]']

@harness(quick=[{'q': q} for q in range(len(QUERIES))], bounds='28 ways of selecting a part of a body of up to three blocks of four kinds (nested elements of the same name included)')
def parts(S, q):
    q = QUERIES[q]
    n = 1 + S.pick('n', 3)
    t = S.text('t', 1, UPPER)
    kinds = [S.choice('k%d' % i, ['p', 'div', 'text']) for i in range(n)]
    blocks, tops = [], []
    for i, k in enumerate(kinds):
        blocks.append({'p': 'p | =%d' % i + t, 'div': 'div\n  p | =%d' % i + t + '\n  i | =n', 'text': '| =%d' % i + t}[k])
    nn, m = S.int('i', 0, 1), 2
    script = '% H @b n m\n  @ ' + q + '\nH {n} {m}\n' + indent('\n'.join(blocks), '  ') + '\n'
    ctx = {'n': nn, 'm': m, 'pick': lambda b: [x for x in b][:1]}
    r = S.run(render_ctx, script, **ctx)
    # reference: the selection among lines of flat elements
    flat = []
    for i, k in enumerate(kinds):
        x = '=%d' % i + t
        flat.append({'p': '<p>' + x + '</p>', 'div': '<div><p>' + x + '</p><i>=n</i></div>', 'text': x}[k])
    ps = ['<p>=%d' % i + t + '</p>' for i, k in enumerate(kinds) if k != 'text']
    inner = {'p': lambda i: '=%d' % i + t, 'div': lambda i: '<p>=%d' % i + t + '</p><i>=n</i>', 'text': lambda i: ''}
    divs = [f for f, k in zip(flat, kinds) if k == 'div']
    iis = ['<i>=n</i>' for k in kinds if k == 'div']
    def ref():
        if q in ('b', 'b.copy()'): return flat
        if q == 'b[0]': return [flat[0]]
        if q == 'b[1]': return [flat[1]]
        if q == 'b[-1]': return [flat[-1]]
        if q == 'b[1:]': return flat[1:]
        if q == 'b[:2]': return flat[:2]
        if q == 'b[::2]': return flat[::2]
        if q == 'b[::-1]': return flat[::-1]
        if q in ('b["p"]', 'b.select("p")'): return ps
        if q == 'b["i"]': return iis
        if q in ('b["zz"]', '[]', 'b[5:]'): return []
        if q == '[b[1], b[0]]': return [flat[1], flat[0]]
        if q == '[b[0], b[0]]': return [flat[0], flat[0]]
        if q == '(b[1:], b[0])': return flat[1:] + [flat[0]]
        if q == 'b[0], b': return None
        if q == 'b["div"]': return divs
        if q == 'b[0].body': return [inner[kinds[0]](0)]
        if q == 'b["p"][0].body': return [ps[0][3:-4]]
        if q == 'b.skip("p")': return [{'p': '', 'div': '<div><i>=n</i></div>', 'text': f}[k] for f, k in zip(flat, kinds)]
        if q == 'b[1:][0]': return [flat[1:][0]]
        if q == 'b["p"][1:]': return ps[1:]
        if q == 'b[n]': return [flat[nn]]
        if q == 'b[n:m]': return flat[nn:m]
        if q == 'pick(b)': return flat[:1]
    if q == 'b[0], b': return          # not an expression of this grammar
    w = S.run(ref)
    if w[0] == 'err':
        S.check(r[0] == 'err', 'part of a body', lambda: '%s got %r expected %r' % (script, r, w)); return
    S.check(r[0] == 'ok' and r[1].replace('\n', '').replace(' ', '') == ''.join(w[1]), 'part of a body', lambda: '\n%s\n got %r expected %r' % (script, r, w))

@harness(quick=[{}], bounds='a part of a body is rendered with the layout of the place of embedding')
def layout(S):
    q, b = S.choice('q', [('b["p"]', 'p\n  | =T\n  i | x'), ('b["ul"][0].body', 'p\n  | =T\n  i | x'), ('b["ul"][0].body[0]', 'p\n  | =T\n  i | x'), ('b[1]', '| =T\n  sub'), ('b[1:]', '| =T\n  sub'), ('[b[1]]', '| =T\n  sub')])
    d = S.choice('d', [DEFS[i] for i in (0, 1, 2, 3, 4, 7, 9, 11)])
    where = S.choice('p', [PLACES[i] for i in (0, 1, 3, 5)])
    t = S.text('t', 1, UPPER)
    body = 'div\n  ul\n    p\n      | =T\n      i | x\n| =T\n  sub'
    s = KDEF + '% H @b\n' + indent(d, '  ').replace('@B', '@ ' + q) + '\n' + put(where, 'H\n' + indent(fill(body, t, 'T'), '  '), '@U') + '\n| tail\n'
    want = KDEF + put(where, put(d, fill(b, t, 'T')), '@U') + '\n| tail\n'
    compare(S, show(S, s), show(S, want), s, 'layout of a part')

@harness(quick=[{}], bounds='embedding of anything that is not made of nodes is an error and leaves no output')
def wrong(S):
    v = S.choice('v', ['5', '"abc"', '1.5', 'True', '[1]', '["a"]', '{"a": 1}', 'fun', 'None', '[b, 1]', '(b[0], "x")', 'b[9]', 'x'])
    x = S.string('x', 2, UPPER)
    S.assume(len(x) > 0)
    s = '% H @b\n  | before\n  @ ' + v + '\nH\n  | body\n'
    r = S.run(render_ctx, s, x=x, fun=len)
    S.check(r[0] == 'err', 'embedded value', lambda: '%s %r' % (s, r))
    if v not in ('b[9]',): S.check(isinstance(r[1], HError), 'kind of error', lambda: '%s %r' % (s, r))

@harness(quick=[{}], bounds='two hypertags that pass bodies to each other; own and passed bodies are not mixed up, whatever the names of the body attributes')
def passing(S):
    ab = RangeSet.of('ab')
    x, y = S.text('x', 1, ab), S.text('y', 1, ab)
    form = S.choice('f', ['G\n    @Y', 'G : p\n    @Y', 'G | own', 'G\n    G\n      @Y\n    | own', 'p @Y', 'G @Y', 'G\n    | own\n  @Y'])
    t = S.text('t', 1, UPPER)
    form = form.replace('@Y', '@' + y)
    s = '% G @' + x + '\n  u\n    @' + x + '\n  | =g\n% H @' + y + '\n  ' + form + '\n  | =h\nH\n  b | =' + t + '\n'
    r = S.run(render, s)
    B = '<b>=' + t + '</b>'
    want = {'G\n    @' + y: '<u>' + B + '</u>=g', 'G : p\n    @' + y: '<u><p>' + B + '</p></u>=g', 'G | own': '<u>own</u>=g', 'G\n    G\n      @' + y + '\n    | own': '<u><u>' + B + '</u>=gown</u>=g', 'p @' + y: '<p>' + B + '</p>', 'G @' + y: '<u>' + B + '</u>=g', 'G\n    | own\n  @' + y: '<u>own</u>=g' + B}[form] + '=h'
    S.check(r[0] == 'ok' and r[1].replace('\n', '').replace(' ', '') == want, 'bodies of two hypertags', lambda: '\n%s\n got %r expected %r' % (s, r, want))
