from checks.common import *
from hypertag import Tag, TagFunction, DOM
from hypertag.core.tag import Markup
from hypertag.core.errors import HError, VoidTagEx, TypeErrorEx
from hypertag.std.registry import Registry

SPACES = RangeSet.of('\t\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u180e\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')
WORD = PLAIN - SPACES            # trailing whitespace of a line is dropped (C14)

# tags of HTML 5 that a script may use without import, in lower or upper case (the void ones first)
VOID = "area base br col embed hr img input link meta param source track wbr".split()
NONVOID = ("a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn "
           "dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header html i iframe ins kbd label legend li main map mark "
           "meter nav noscript object ol optgroup option output p picture pre progress q rp rt ruby s samp script section select small span strong style "
           "sub summary sup svg table tbody td template textarea tfoot th thead time title tr u ul var video").split()
GROUPS = 8

def EQ(S, got, want, label, script):
    S.check(got == want, label, lambda: '%s\n  got %r\n want %r' % (script, got, want))

def element(name, attrs, body):
    return '<' + name + attrs + '>' + body + ('\n' if body[:1] == '\n' else '') + '</' + name + '>'

# --- bodies: lines after the tag name and attributes (with @T@ for text), body as it stands inside the element
BODIES = {
    'none':    ('', ''),
    'inline':  (' | @T@', '@E@'),
    'verb':    (' / @T@', '@T@'),
    'more':    (' | @T@\n  z', '@E@\nz'),
    'outline': ('\n  | @T@', '\n  @E@'),
    'two':     ('\n  | @T@\n  / @T@', '\n  @E@\n  @T@'),
    'nested':  ('\n  p\n    i | @T@\n  | @T@', '\n  <p>\n    <i>@E@</i>\n  </p>\n  @E@'),
    'chain':   (': b : i | @T@', '<b><i>@E@</i></b>'),
    'chain2':  (': b\n  | @T@\n  hr', '<b>\n  @E@\n  <hr />\n</b>'),
    'void':    (': br', '<br />'),
    'margin':  ('\n\n  | @T@\n\n  p | @T@', '\n\n  @E@\n\n  <p>@E@</p>'),
    'loop':    ('\n  for i in [1,2]\n    | @T@', '\n  @E@\n  @E@'),
    'expr':    (' / {x}', '@X@'),
    'pass':    ('\n  pass', ''),
    'dead':    ('\n  if False\n    | @T@', ''),
}
EMPTY = ['none', 'pass', 'dead']

def ctx(x):
    return dict(x=x, y='Y', __tags__=TAGS)

TAGS = {'M': Markup('mm'), 'V': Markup('vv', void=True), 'X': Markup('xx', mode='XHTML'), 'Same': Markup('Same'), 'longer': Markup('x-LONG.er_1')}
HEAD = 'context $x, $y, %M, %V, %X, %Same, %longer\n'
# occurrence of a tag, the name that comes out
OCC = [('p', 'p'), ('DIV', 'DIV'), ('h1', 'h1'), ('custom "x-y"', 'x-y'), ('M', 'mm'), ('X', 'xx'), ('Same', 'Same'), ('longer', 'x-LONG.er_1'), ('custom $y', 'Y')]
ATTRS = [('', ''), (' a="1" b={"2"}', ' a="1" b="2"'), (' .c1 #i1', ' class="c1" id="i1"'), (' a=True b=False', ' a'), (' data-x="$y"', ' data-x="Y"')]
XATTRS = {' a': ' a="a"'}

def body_of(kind, t, x):
    b = BODIES[kind][1]
    return fill(fill(fill(b, esc(t), '@E@'), t), x, '@X@')


@harness(quick=[{'kind': k} for k in sorted(BODIES)], thorough=[{'kind': k, 'n': 3, 'deep': d} for k in sorted(BODIES) for d in [0, 1]],
         bounds='nine kinds of tags with five attribute lists and fifteen bodies with a text of n symbolic characters')
def body(S, kind, n=2, deep=0):
    t = 'x' + S.text('t', n - 1, WORD) + 'y'
    x = S.text('x', n, VAL - NL - WS) if kind == 'expr' else 'q'
    o, name = OCC[S.pick('occ', len(OCC))]
    a, attrs = ATTRS[S.pick('attrs', len(ATTRS))]
    if name == 'xx': attrs = XATTRS.get(attrs, attrs)
    want = element(name, attrs, body_of(kind, t, x))
    src = fill(BODIES[kind][0], t)
    if deep:
        src = src.replace('\n', '\n    ').replace('\n    \n', '\n\n')
        script = 'div\n  ul\n    ' + o + a + src + '\n| z\n'
        want = '<div>\n  <ul>\n    ' + want.replace('\n', '\n    ').replace('\n    \n', '\n\n') + '\n  </ul>\n</div>\nz\n'
    else:
        script = o + a + src + '\n| z\n'
        want = want + '\nz\n'
    out = render(HEAD + script, **ctx(x))
    EQ(S, out, want, 'the element surrounds exactly its body', script)


@harness(quick=[{'kind': k} for k in sorted(BODIES)], bounds='six void tags, five attribute lists, fifteen bodies: rendered without a body only when the body is empty, an error otherwise')
def void(S, kind):
    t = 'x' + S.text('t', 1, PLAIN)
    x = S.text('x', 1, VAL - NL - WS)
    o, name = [('br', 'br'), ('HR', 'HR'), ('img', 'img'), ('V', 'vv'), ('input', 'input'), ('META', 'META')][S.pick('occ', 6)]
    a, attrs = ATTRS[S.pick('attrs', len(ATTRS))]
    script = HEAD + o + a + fill(BODIES[kind][0], t) + '\n| z\n'
    r = S.run(render, script, **ctx(x))
    if kind in EMPTY: S.check(r == ('ok', '<' + name + attrs + ' />\nz\n'), 'void element', lambda: '%s%r' % (script, r))
    else: S.check(r[0] == 'err' and isinstance(r[1], VoidTagEx), 'a void tag rejects a non-empty body', lambda: '%s%r' % (script, r))


@harness(quick=[{}], thorough=[{'n': 3}], bounds='void tags over a body that is a value of 0-2 symbolic characters, embedded verbatim or given to the tag as a function')
def void_value(S, n=2):
    x = S.string('x', n, VAL)
    empty = len(x) == 0
    for script, want in [('context $x\nbr / $x\n', '<br />\n'), ('context $x\nimg a="1" ! {}\n'.replace('! {}', '/ {x}'), '<img a="1" />\n'), ('context $x\np : hr / $x\n', '<p><hr /></p>\n')]:
        r = S.run(render, script, x=x)
        if empty: S.check(r == ('ok', want), 'an empty value is an empty body', lambda: '%s%r' % (script, r))
        else: S.check(r[0] == 'err' and isinstance(r[1], VoidTagEx), 'a value makes the body non-empty', lambda: '%s%r' % (script, r))
    v = Markup('vv', void=True)
    r = S.run(v, x, a='1')
    if empty: S.check(r == ('ok', '<vv a="1" />'), 'void tag as a function', lambda: repr(r))
    else: S.check(r[0] == 'err' and isinstance(r[1], VoidTagEx), 'void tag as a function', lambda: repr(r))


def all_names():
    return [(n, 0) for n in NONVOID] + [(n, 1) for n in VOID]

@harness(quick=[{'g': g} for g in range(GROUPS)], bounds='every HTML 5 tag in both cases; body and attribute of one symbolic character')
def names(S, g):
    group = all_names()[g::GROUPS]
    x = S.text('x', 1, VAL - NL - WS); 
    y = S.text('y', 1, RangeSet.of('abcXYZ019'))
    name, void = group[S.pick('tag', len(group))]
    if S.flag('upper'): name = name.upper()
    script = 'context $x, $y\ndiv\n  ' + name + ' title=$y' + (''  if void else ' / $x') + '\n  | z'
    want = '<' + name + ' title="' + y + '"' + (' />' if void else '>' + x + '</' + name + '>')
    EQ(S, render(script, x=x, y=y), '<div>\n  ' + want + '\n  z\n</div>', 'built-in tag', script)
    if void: S.check(isinstance(S.run(render, 'context $x\n' + name + ' / $x', x=x)[1], VoidTagEx), 'built-in void tag rejects a body', name)
    # the tag called as a function gives the same element
    if not void: EQ(S, render('context $x, $y\n/ {%' + name + '(x, title=y)}', x=x, y=y), want, 'tag as a function', name)


NAME1 = RangeSet.of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
NAMEN = NAME1 | RangeSet.of('0123456789-_.:')

@harness(quick=[{'n': 3, 'm': 2}], thorough=[{'n': 6, 'm': 4}], bounds='Markup(name, void, mode) with a symbolic name of n characters, called as a function with a body of m arbitrary characters and three attributes (one of them True or False) ')
def markup(S, n, m):
    name = S.text('n0', 1, NAME1) + S.text('n', n - 1, NAMEN)
    x = S.string('x', m, VAL)
    void = S.flag('void')
    xhtml = S.flag('xhtml')
    a = S.choice('a', [True, False, 'v', 7])
    b = S.choice('b', [True, False, ''])
    tag = Markup(name, void, 'XHTML' if xhtml else 'HTML')
    r = S.run(tag, x, aa=a, b=b, c='k')
    at = lambda k, v: '' if v is False else (' ' + k + ('="' + k + '"' if xhtml else '')) if v is True else ' ' + k + '="' + str(v) + '"'
    attrs = at('aa', a) + at('b', b) + ' c="k"'
    if void and len(x): S.check(r[0] == 'err' and isinstance(r[1], VoidTagEx), 'void', lambda: repr(r))
    elif void: S.check(r == ('ok', '<' + name + attrs + ' />'), 'void element', lambda: repr(r))
    else: S.check(r == ('ok', element(name, attrs, x)), 'element', lambda: 'got %r want %r' % (r, element(name, attrs, x)))
    S.check(tag.name == name and tag.void == void, 'the tag keeps its name', lambda: repr(tag.name))
    if not void: S.check(tag() == '<' + name + '></' + name + '>', 'a tag without a body', lambda: repr(tag.name))


@harness(quick=[{}], thorough=[{'n': 2}], bounds='element name of the custom tag of n+1 symbolic characters, given as literal, value or expression')
def custom(S, n=1):
    name = S.text('n0', 1, NAME1) + S.text('n', n, NAMEN)
    t = S.text('t', 1, WORD)
    how = S.choice('how', ['"@N@"', '$n', '{n}', '(n)', '"$n"', "'{n}'", '{"" n}'])
    out = render('context $n\ndiv\n  custom ' + how.replace('@N@', '') + ' title="u" .k #i data-a={1+1} b=True | ' + t + '\n' if how != '"@N@"'
                 else 'context $n\ndiv\n  custom "' + name + '" title="u" .k #i data-a={1+1} b=True | ' + t + '\n', n=name)
    EQ(S, out, '<div>\n  <' + name + ' title="u" class="k" id="i" data-a="2" b>' + esc(t) + '</' + name + '>\n</div>\n', 'custom', how)


POS = ['1', '"s"', '$x', '{x}', '(1,2)', '{None}', '{False}', '""', '{x}!', '[1]']
@harness(quick=[{}], bounds='numbers 0-3 of positional attributes of markup, custom and comment tags, before named ones')
def positional(S):
    k = S.pick('k', 4)
    pos = ''.join([' ' + POS[S.pick('p%d' % i, len(POS)) if i == 0 else i] for i in range(k)])
    named = S.choice('named', ['', ' a="1"', ' .c', ' a="1" #i'])
    outn = {'': '', ' a="1"': ' a="1"', ' .c': ' class="c"', ' a="1" #i': ' a="1" id="i"'}[named]
    t = S.choice('tag', ['p', 'DIV', 'br', 'M', 'V', 'X', 'custom', 'comment', 'custom "n"'])
    script = HEAD + '| z\n' + t + pos + named + '\n'
    r = S.run(render, script, **ctx('xv'))
    if t in ('br', 'V'): want = '<' + {'br': 'br', 'V': 'vv'}[t] + outn + ' />' if not k else None
    elif t == 'comment': want = '<!---->' if not k and not named else None
    elif t == 'custom': want = 0 if k == 1 else None
    else:
        n = {'M': 'mm', 'X': 'xx', 'custom "n"': 'n'}.get(t, t)
        want = '<' + n + outn + '></' + n + '>' if not k else None
    if want is None: S.check(r[0] == 'err' and isinstance(r[1], TypeErrorEx), 'wrong positional attributes are rejected', lambda: '%s%r' % (script, r))
    elif want == 0:
        if r[0] == 'ok': S.check(r[1].startswith('z\n<') and (outn + '>') in r[1], 'custom with one positional attribute', lambda: '%s%r' % (script, r))
        else: S.check(pos in (' (1,2)', ' {None}', ' {False}', ' [1]', ' 1'), 'custom with one positional attribute', lambda: '%s%r' % (script, r))
    else: S.check(r == ('ok', 'z\n' + want + '\n'), 'no positional attributes', lambda: '%s%r' % (script, r))


@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='comment tag with inline and outline bodies of n symbolic characters')
def comment(S, n):
    t = 'x' + S.text('t', n, WORD)
    kind = S.choice('kind', ['inline', 'verb', 'more', 'outline', 'nested', 'chain', 'none', 'margin'])
    script = 'comment' + fill(BODIES[kind][0], t) + '\n| z\n'
    b = body_of(kind, t, '')
    EQ(S, render(script), '<!--' + b + ('\n' if b[:1] == '\n' else '') + '-->\nz\n', 'comment tag', script)


class Got(object):
    def __init__(self): self.calls = []

# attributes at an occurrence of an external tag; positional and named values the function must receive (in terms of x)
FARGS = [
    ('',                       lambda x: ((), {})),
    (' $x',                    lambda x: ((x,), {})),
    (' {x} 2 "s"',             lambda x: ((x, 2, 's'), {})),
    (' 1 a=$x',                lambda x: ((1,), {'a': x})),
    (' a=$x b={[x]} c=None d=True e=1.5', lambda x: ((), {'a': x, 'b': [x], 'c': None, 'd': True, 'e': 1.5})),
    (' {x,1} [x] {{"k": x}}',  lambda x: (((x, 1), [x], {'k': x}), {})),
    (' data-a=$x a.b:c="1"',   lambda x: ((), {'data-a': x, 'a.b:c': '1'})),
    (' .c #i q=$x',            lambda x: ((), {'class': 'c', 'id': 'i', 'q': x})),
    (' "$x" b=$x?',            lambda x: ((x,), {'b': x})),
    (' () a={()}',             lambda x: (((),), {'a': ()})),
    (' None False 0 ""',       lambda x: ((None, False, 0, ''), {})),
    (' obj k=$obj',            None),
]

def same(a, b):
    """Equal, of the same type throughout"""
    if type(a) != type(b) and not (isinstance(a, str) and isinstance(b, str)): return False
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all([same(a[i], b[i]) for i in range(len(a))])
    if isinstance(a, dict): return list(a) == list(b) and all([same(a[k], b[k]) for k in a])
    return a == b

@harness(quick=[{'i': i} for i in range(len(FARGS) - 1)], thorough=[{'i': i, 'n': 2, 'form': f} for i in range(len(FARGS) - 1) for f in [0, 1, 2, 3]],
         bounds='twelve attribute lists and ten bodies; the function returns two arbitrary characters; plain and DOM functions, Tag subclass, Registry')
def external(S, i, n=1, form=None):
    x = S.text('x', n, VAL - NL)
    ret = S.text('ret', 2, VAL - NL)
    if S.flag('markup'): ret = '<b>&amp;' + ret + '</b>\u00a0"'
    kind = S.choice('kind', ['none', 'verb', 'outline', 'chain', 'void', 'loop', 'dead', 'margin'])
    form = S.pick('form', 4) if form is None else form
    got = Got()
    def fun(body, *args, **kwargs):
        got.calls.append((body, args, kwargs)); return ret
    if form == 0: tag = TagFunction(fun)
    elif form == 1: tag = TagFunction(fun, dom=True)
    elif form == 2:
        class T(Tag):
            name = 'fun'
            def expand(self, body, attrs, kwattrs): return fun(body, *attrs, **kwattrs)
        tag = T()
    else:
        reg = Registry()
        S.check(reg.tag(fun) is fun, 'a registered function stays as it is', '')
        S.check(list(reg.tags) == ['fun'], 'registered under its name', '')
        tag = reg.tags['fun']
    S.check(tag.name == 'fun', 'name of the tag', repr(tag.name))
    a, f = FARGS[i]
    script = 'context $x, %fun\ndiv\n  fun' + a + fill(BODIES[kind][0], 't&t').replace('\n', '\n  ').replace('\n  \n', '\n\n') + '\n  | z\n'
    out = render(script, x=x, __tags__={'fun': tag})
    EQ(S, out, '<div>\n  ' + ret + '\n  z\n</div>\n', 'the returned value is inserted as is', script)
    S.check(len(got.calls) == 1, 'called once', lambda: script + repr(got.calls))
    b, args, kwargs = got.calls[0]
    if form in (1, 2):
        S.check(isinstance(b, DOM), 'the function receives the DOM', repr(type(b)))
        b = b.render()
    S.check(isinstance(b, str), 'the function receives a string', repr(type(b)))
    EQ(S, b, body_of(kind, 't&t', x), 'the function receives the body', script)
    want = f(x)
    S.check(same(tuple(args), want[0]) and same(kwargs, want[1]), 'the function receives the attributes', lambda: '%s got %r %r want %r' % (script, args, kwargs, want))


@harness(quick=[{}], thorough=[{'n': 2}], bounds='values of n symbolic characters; result of several lines, of an external tag in chains, other external tags, hypertags and functions')
def external_nesting(S, n=1):
    t = S.text('t', n, WORD)
    up = lambda body, *a, **k: '[' + '|'.join([body] + [str(v) for v in a]) + ']'
    up.__name__ = 'up'
    lines = lambda body, k=1: '\n'.join(['%d%s' % (j, body) for j in range(k)])
    lines.__name__ = 'lines'
    tags = {'up': TagFunction(up), 'lines': TagFunction(lines)}
    head = 'context %up, %lines\n'
    e = esc(t)
    cases = [
        ('up : up 1 : up | @T@', '[[[@E@]|1]]'),
        ('p : up : i | @T@', '<p>[<i>@E@</i>]</p>'),
        ('up\n  p | @T@\n  up 2 | @T@', '[\n  <p>@E@</p>\n  [@E@|2]]'),
        ('div\n  ul\n    lines 3 | @T@', '<div>\n  <ul>\n    0@E@\n    1@E@\n    2@E@\n  </ul>\n</div>'),
        ('lines 2 : up | @T@\np | @T@', '0[@E@]\n1[@E@]\n<p>@E@</p>'),
        ('% H @b k\n  div\n    up $k\n      @b\nH "a"\n  i | @T@\nH "c" | @T@', '<div>\n  [\n    <i>@E@</i>|a]\n</div>\n<div>\n  [\n    @E@|c]\n</div>'),
        ('/ {%up("@T@", 1, 2)}', '[@T@|1|2]'),
        ('| {%up("@T@")}', '[@E@]'),
        ('p title={%up("k")} | @T@', '<p title="[k]">@E@</p>'),
        ('$v = %up("a", "b")\n| $v@T@', None),
        ('for f in [1, 2]\n  up $f | @T@', '[@E@|1]\n[@E@|2]'),
        ('try\n  p\n    up | @T@\nelse\n  | no', '<p>\n  [@E@]\n</p>'),
        ('if 1: up | @T@', None),
        ('p | a\n... up | @T@', '<p>a</p>[@E@]'),
    ]
    cases = [c for c in cases if c[1] is not None]
    s, w = cases[S.pick('case', len(cases))]
    if '"@T@"' in s and (t == '"' or t == '\\' or t[-1:] == '\\' or any([c in '"\\' for c in t])): return
    EQ(S, render(head + fill(s, t), __tags__=tags), fill(fill(w, e, '@E@'), t), 'external tag in place', s)


@harness(quick=[{}], bounds='a class, an instance or a function registered under a symbolic name of 2 letters')
def registry(S):
    nm = S.text('n', 2, LOWER)
    x = S.text('x', 1, VAL - NL - WS)
    reg = Registry()
    class K(Tag):
        name = 'kk'
        def expand(self, body, attrs, kwattrs): return 'K' + body.render()
    S.check(reg.tag(K) is K, 'a class decorated stays a class', '')
    m = Markup(nm)
    S.check(reg.tag(m) is m, 'an instance stays', '')
    g = lambda body: 'g' + body
    g.__name__ = 'gg'
    reg.tag(g)
    S.check(reg.var('v', x) is x and reg.vars['v'] is x, 'variable', '')
    S.check(reg.var(g) is g and reg.vars['gg'] is g, 'function as a variable', '')
    S.check(nm == 'kk' or isinstance(reg.tags['kk'], K), 'the class is instantiated', '')
    S.check(isinstance(reg.tags[nm], Tag) and (reg.tags[nm] is m or nm in ('kk', 'gg')), 'registered under its name', lambda: nm)
    S.assume(nm != 'kk' and nm != 'gg' and nm not in ('if', 'in', 'is', 'or', 'as'))
    out = render('context $x, %' + nm + ', %kk, %gg\n' + nm + ' : kk : gg / $x', x=x, __tags__=reg.tags)
    EQ(S, out, '<' + nm + '>Kg' + x + '</' + nm + '>', 'registered tags', lambda: nm)
