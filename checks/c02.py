from checks.common import *
from hypertag.core.tag import Markup

NAMED_ENT = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}

def unescape(t):
    """Reference decoding of character references in an attribute value."""
    out = []; i = 0
    while i < len(t):
        if t[i] == '&':
            j = i + 1
            while j < len(t) and t[j] != ';': j += 1
            if j == len(t): return None
            name = t[i + 1:j]
            if name in NAMED_ENT: out.append(NAMED_ENT[name])
            elif name[:2] == '#x': out.append(chr(int(name[2:], 16)))
            elif name[:1] == '#': out.append(chr(int(name[1:])))
            else: return None
            i = j + 1
        else:
            out.append(t[i]); i += 1
    return ''.join(out)

def read_tag(t, name):
    """
    Reference reader of a start tag (as in the HTML tokenizer, for tags hypertag may write).
    Returns ([(attribute, value or None)], rest of t) or None when t does not start with a tag of that name.
    """
    if t[:len(name) + 1] != '<' + name: return None
    i = len(name) + 1; attrs = []
    while True:
        if i >= len(t): return None
        j = i
        while i < len(t) and t[i] in ' \t\n\r\f': i += 1
        if i >= len(t): return None
        if t[i] == '>': return attrs, t[i + 1:]
        if t[i:i + 2] == '/>': return attrs, t[i + 2:]
        if i == j: return None
        j = i
        while i < len(t) and t[i] not in ' \t\n\r\f=>/': i += 1
        if i == j: return None
        n = t[j:i]
        if t[i:i + 1] == '=':
            q = t[i + 1:i + 2]
            if q != '"' and q != "'": return None
            j = i = i + 2
            while i < len(t) and t[i] != q: i += 1
            if i >= len(t): return None
            v = unescape(t[j:i])
            if v is None: return None
            attrs.append((n, v)); i += 1
        else:
            attrs.append((n, None))

def expect(S, out, prefix, tag, attrs, rest):
    """out must be prefix + start tag of `tag` with exactly `attrs` + rest."""
    S.observe('out', out)
    S.check(out[:len(prefix)] == prefix, 'output before the tag is intact', lambda: 'output %r' % (out,))
    r = read_tag(out[len(prefix):], tag)
    if r is None: S.fail('the start tag is well-formed', 'output %r' % (out,))
    S.eq(r[0], attrs, 'attributes read back are the values given')
    S.eq(r[1], rest, 'output after the tag is intact')


# --- where the tag stands: script with @A@ for the attribute list; prefix, tag name, rest of the output
TAGS = {
    'p':      ('p @A@ | q', '', 'p', 'q</p>'),
    'upper':  ('DIV @A@', '', 'DIV', '</DIV>'),
    'void':   ('br @A@', '', 'br', ''),
    'custom': ('custom "x-y" @A@ | q', '', 'x-y', 'q</x-y>'),
    'markup': ('context %M\nM @A@ / q', '', 'mm', 'q</mm>'),
    'vmark':  ('context %V\nV @A@', '', 'vv', ''),
    'nested': ('div\n    ul\n        li @A@ | q\n', '<div>\n    <ul>\n        ', 'li', 'q</li>\n    </ul>\n</div>\n'),
    'chain':  ('div : p @A@ : b | q', '<div>', 'p', '<b>q</b></p></div>'),
    'hyper':  ('% H @b\n  div\n    @b\nH\n  p @A@ | q', '<div>\n  ', 'p', 'q</p>\n</div>'),
    'loop':   ('for i in [1]\n  p @A@\n    | q', '', 'p', '\n  q\n</p>'),
    'append': ('| a\n... p @A@ | q', 'a', 'p', 'q</p>'),
    'filter': ('div / {%p("q", **k)}' , None, None, None),
}
del TAGS['filter']
# attributes passed through the attributes of a hypertag
THROUGH = {
    'attr':   '% H k z="u"\n  p title=$k lang=$z\nH @V@ z="w"',
    'named':  '% H z="u" k="d"\n  p title=$k lang=$z\nH k=@V@ z="w"',
    'two':    '% G k\n  p title=$k lang="w"\n% H k\n  G $k\nH @V@',
}
# how the value is given: attribute value in the script, name, rendered value as a function of x
HOW = {
    'var':    'title=$x', 'brace': 'title={x}', 'quot': 'title="$x"', 'apos': "title='{x}'", 'paren': 'title=(x)', 'concat': 'title={"" x}',
    'item':   'title=$d.x', 'space': 'title = $x', 'cond': 'title={x if 1 else 0}', 'qual': 'title=$x?', 'list': 'title={[x][0]}',
    'class':  '.$x', 'class2': '.{x}', 'id': '#$x', 'id2': '#{x}', 'data': 'data-x.y:z=$x', 'uni': 'ąę=$x', 'event': '@click=$x',
}
NAMES = {'class': 'class', 'class2': 'class', 'id': 'id', 'id2': 'id', 'data': 'data-x.y:z', 'uni': 'ąę', 'event': '@click'}

class Rec(object): pass

def ctx(x):
    d = Rec(); d.x = x
    return dict(x=x, d=d, __tags__={'M': Markup('mm'), 'V': Markup('vv', void=True)})


@harness(quick=prod(tag=sorted(TAGS), how=['var'], n=[2]) + prod(tag=['p'], how=sorted(set(HOW) - {'var', 'event'}), n=[1]) + [{'tag': 'p', 'how': 'var', 'n': 3}],
         thorough=prod(tag=sorted(TAGS), how=sorted(set(HOW) - {'event'}), n=[2]) + [{'tag': 'p', 'how': 'var', 'n': 4}, {'tag': 'nested', 'how': 'quot', 'n': 3}],
         bounds='one attribute whose value is a string of n arbitrary Unicode characters, line breaks and quotes included')
def value(S, tag, how, n):
    x = S.text('x', n, VAL)
    script, prefix, name, rest = TAGS[tag]
    head = 'context $x, $d'
    if script[:8] == 'context ': script = head + ', ' + script[8:]
    else: script = head + '\n' + script
    out = render(script.replace('@A@', HOW[how]), **ctx(x))
    expect(S, out, prefix, name, [(NAMES.get(how, 'title'), x)], rest)


# beginnings and middles of values that an implementation may be tempted to treat specially
HEADS = ['/', 'http://', 'https://', '#', '?', './', 'a.b', '&', '{', '$', "'", '"', 'javascript:', 'x=', '100%', ' ', 'data:', 'mailto:', '1', 'on', 'True', '\\', '<', 'url(', '--']
TAILS = ['&amp;', '&lt', '&#38;', '&', '?a=b&c=d', '"', "'", '', ' ', '>', 'x']

@harness(quick=[{'how': 'var', 'n': 1}, {'how': 'class', 'n': 1}], thorough=[{'how': 'var', 'n': 2}, {'how': 'quot', 'n': 1}, {'how': 'id', 'n': 1}, {'how': 'event', 'n': 1}, {'how': 'data', 'n': 1}], bounds='values made of one of 25 beginnings (of URLs, numbers, code and so on), one (thorough: two) arbitrary characters, and one of 11 ends (entities, quotes); attributes with various names')
def affixes(S, how, n):
    i = S.pick('h', len(HEADS))
    x = HEADS[i] + S.text('x', n, VAL) + S.choice('t', TAILS)
    n = ['title', 'href', 'src', 'style', 'onclick', 'value', 'action'][i % 7] if how == 'var' else NAMES.get(how, 'title')
    h = HOW[how] if how != 'var' else n + '=$x'
    expect(S, render_ctx('p ' + h, x=x), '', 'p', [(n, x)], '</p>')


@harness(quick=prod(how=sorted(THROUGH), n=[2]), thorough=prod(how=sorted(THROUGH), n=[3]), bounds='as value, the value passed through attributes of hypertags')
def through(S, how, n):
    x = S.text('x', n, VAL)
    out = render('context $x\n' + THROUGH[how].replace('@V@', '$x'), x=x)
    expect(S, out, '', 'p', [('title', x), ('lang', 'w')], '</p>')


@harness(quick=prod(q=['"', "'"], n=[1]) + [{'q': '"', 'n': 2}], thorough=prod(q=['"', "'"], n=[2, 3]),
         bounds='quoted literal of n arbitrary characters other than the quote, backslash, $ { } as attribute value')
def literal(S, q, n):
    x = S.text('x', n, CH - RangeSet.of('\\${}' + q))
    out = render('div\n  a title=' + q + 't' + x + 't' + q + ' b=r' + q + 't' + x + 't' + q + ' | z\n')
    expect(S, out, '<div>\n  ', 'a', [('title', 't' + x + 't'), ('b', 't' + x + 't')], 'z</a>\n</div>\n')


SHORT = RangeSet.of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-')

@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='shortcuts .x and #y with n characters each')
def shortcut(S, n):
    # after a space, '.5' is a number (positional attribute) in the grammar: the shortcut starts with another character there
    x = S.text('x0', 1, SHORT - DIGIT) + S.text('x', n - 1, SHORT); y = S.text('y', 1, SHORT)
    out = render('p .' + x + '.k #' + y + ' .z | q')
    expect(S, out, '', 'p', [('class', x + ' k z'), ('id', y)], 'q</p>')
    out = render('p.' + x + '#' + y + ' | q')
    expect(S, out, '', 'p', [('class', x), ('id', y)], 'q</p>')


XMLCHAR = RangeSet([(0x61, 0x7a), (0x41, 0x5a), (0x30, 0x39), (0x5f, 0x5f), (0x2d, 0x2e), (0xC0, 0xD6), (0x370, 0x37D), (0x4E00, 0x4FFF), (0x10000, 0x10010)])
XMLSTART = XMLCHAR - RangeSet.of('0123456789-.')

@harness(quick=[{'n': 1}], thorough=[{'n': 2}, {'n': 3}], bounds='attribute names of 1 + n XML name characters (ASCII and some other ranges)')
def name(S, n):
    k = S.char('k', XMLSTART) + S.text('l', n, XMLCHAR)
    x = S.text('x', 1, VAL)
    out = render('context $x\np ' + k + '=$x zz="1" | q', x=x)
    S.assume(k != 'zz')
    expect(S, out, '', 'p', [(k, x), ('zz', '1')], 'q</p>')


@harness(quick=[{'m': 11}], thorough=[{'m': 120}], bounds='an integer value in -m..m')
def integer(S, m):
    n = S.int('n', -m, m)
    out = render('context $n\np a=$n b={n + 1} c={2 * n} | q', n=n)
    expect(S, out, '', 'p', [('a', '%d' % n), ('b', '%d' % (n + 1)), ('c', '%d' % (2 * n))], 'q</p>')


class Obj(object):
    def __init__(self, s): self.s = s
    def __str__(self): return self.s

@harness(quick=[{}], bounds='None, floats, integers, collections, and objects whose str() is 2 arbitrary characters')
def other(S):
    x = S.text('x', 2, VAL)
    v, s = S.choice('v', [(None, 'None'), (1.5, '1.5'), (0, '0'), (1, '1'), (Obj(x), x), ([1], '[1]'), ('', ''), ('True', 'True'), (Obj('<"&\'>'), '<"&\'>')])
    out = render('context $x\np title=$x b={x} | q', x=v)
    expect(S, out, '', 'p', [('title', s), ('b', s)], 'q</p>')


@harness(quick=[{'m': 2}], thorough=[{'m': 3}], bounds='m attributes, each True, False or a string of 1 arbitrary character, given as value, keyword literal or expression, in four tags')
def boolean(S, m):
    vals = []; want = []
    for i in range(m):
        k = S.pick('k%d' % i, 4)
        v = [True, False, S.text('x%d' % i, 1, VAL) if k == 2 else '', '1'][k]
        vals.append(v)
        if v is True: want.append(('abc'[i], None))
        elif v is not False: want.append(('abc'[i], v))
    tag, head, rest = S.choice('tag', [('p', 'p', '</p>'), ('custom "x-y"', 'x-y', '</x-y>'), ('hr', 'hr', ''), ('M', 'mm', '</mm>')])
    if m == 2:
        vals.append(True); want.append(('c', None))
    form = S.choice('form', ['a=$x b=$y c=$z', 'a={x} b=(y) c={z}'])
    out = render('context %M, $x, $y, $z\n' + tag + ' ' + form, x=vals[0], y=vals[1], z=vals[2], **{'__tags__': {'M': Markup('mm')}})
    expect(S, out, '', head, want, rest)
    if not any(isinstance(v, str) for v in vals):
        out = render(tag.replace('M', 'p') + ' a=%s b=%s c=%s' % tuple(vals))
        expect(S, out, '', head.replace('mm', 'p'), want, rest.replace('mm', 'p'))


PIECES = [('.{x}', 'class'), ('.u', 'class'), ('class=$x', 'class'), ('class="v $x"', 'class'), ('#{x}', 'id'), ('#w', 'id'), ('id=$x', 'id'), ('title="{x}t"', 'title'),
          ('lang="s"', 'lang'), ('ID=$x', 'ID')]
PVAL = ['x', 'u', 'x', 'v x', 'x', 'w', 'x', 'xt', 's', 'x']

@harness(quick=[{'m': 3}], thorough=[{'m': 4}], bounds='all sequences of up to m attributes out of ten forms (repetitions included); an embedded value of 1 character')
def sequence(S, m):
    x = S.text('x', 1, RangeSet.of('"b' if m > 2 else '&"\'< \nab'))
    parts = []; names = []; vals = {}
    for i in range(m):
        k = S.pick('p%d' % i, len(PIECES))
        f, a = PIECES[k]
        v = PVAL[k].replace('x', '\0')
        v = x.join(v.split('\0'))
        parts.append(f)
        if a in vals: vals[a] = vals[a] + ' ' + v
        else:
            names.append(a); vals[a] = v
    out = render('context $x\np ' + ' '.join(parts) + ' | q', x=x)
    expect(S, out, '', 'p', [(a, vals[a]) for a in names], 'q</p>')
