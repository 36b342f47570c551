from checks.common import *
from hypertag.core.errors import HError

ANY = UNI_LINE                                          # includes the characters used internally for indentation
SPACE = RangeSet.of('\t\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000')

# script and expected output for text t; plain text is escaped
PLACES = {
    'block': ('| t@T@t', 't@T@t'), 'head': ('p | t@T@t', '<p>t@T@t</p>'), 'tail': ('p | x\n  t@T@t\n    y\n| z', '<p>x\nt@T@t\n  y</p>\nz'),
    'nested': ('div\n  p\n      | t@T@t\n  b | t@T@t\n\n| z', '<div>\n  <p>\n      t@T@t\n  </p>\n  <b>t@T@t</b>\n</div>\n\nz'), 'tabs': ('div\n\tp\n\t\t| t@T@t\n\t| z', '<div>\n\t<p>\n\t\tt@T@t\n\t</p>\n\tz\n</div>'),
    'chain': ('div : p | t@T@t', '<div><p>t@T@t</p></div>'), 'hyper': ('% H @b\n  p\n    @b\nH\n  | t@T@t\nH | t@T@t', '<p>\n  t@T@t\n</p>\n<p>\n  t@T@t\n</p>'), 'try': ('try\n  p\n    | t@T@t\n    | {1/0}\nelse | t@T@t', 't@T@t'),
    'for': ('for i in [1,2]\n  | t@T@t', 't@T@t\nt@T@t'), 'append': ('b | x\n... | t@T@t', '<b>x</b>t@T@t'),
}
RAW = {'markup': ('/ t@T@t\n', 't@T@t\n'), 'verbatim': ('! t@T@t\n  {t@T@t $\n', 't@T@t\n{t@T@t $\n'), 'vhead': ('p ! t@T@t\nb\n  ! {}\n    t@T@t', '<p>t@T@t</p>\n<b>\n  {}\n    t@T@t\n</b>'.replace('    t', '  t'))}

@harness(quick=[{'where': w, 'n': 1} for w in sorted(PLACES)] + [{'where': w, 'n': 2} for w in ('head', 'tail')],
         thorough=[{'where': w, 'n': 2} for w in sorted(PLACES)] + [{'where': 'block', 'n': 3}],
         bounds='every character of Unicode except line feed, $ { }, in plain text between two letters, at ten places (two such characters in two places)')
def plain(S, where, n):
    s, e = PLACES[where]
    t = S.text('t', n, (ANY if n < 2 else MARKS | RangeSet.of('<a\xa0')) - RangeSet.of('${}'))
    r = S.run(render, fill(s, t, '@T@'))
    S.check(r[0] == 'ok' and r[1] == fill(e, esc(t), '@T@'), 'text is reproduced', lambda: '\n%r\n got %r' % (fill(s, t, '@T@'), r))

@harness(quick=[{'where': w} for w in sorted(RAW)], thorough=[{'where': w, 'n': 2} for w in sorted(RAW)], bounds='every character of Unicode except line feed (in markup: and $ { }) in markup and verbatim blocks')
def raw(S, where, n=1):
    s, e = RAW[where]
    t = S.text('t', n, ANY - RangeSet.of('${}') if where == 'markup' else ANY)
    r = S.run(render, fill(s, t, '@T@'))
    S.check(r[0] == 'ok' and r[1] == fill(e, t, '@T@'), 'text is reproduced', lambda: '\n%r\n got %r' % (fill(s, t, '@T@'), r))

@harness(quick=[{'n': 2}], thorough=[{'n': 3}, {'n': 4}], bounds='two (thorough: four) characters of which all may be those used internally to encode indentation, in text, nested text, an attribute, a comment and an expression at the same time')
def internal(S, n):
    t = S.text('t', n, RangeSet([(0x2767, 0x276C)]))
    s = '# %s\ndiv title="%s"\n  p\n    | %s\n      %s\n  -- c%s\n  b | {"%s"} # %s\n! %s\n' % ((t,) * 8)
    want = '<div title="%s">\n  <p>\n    %s\n    %s\n  </p>\n  <b>%s # %s</b>\n</div>\n%s\n' % ((t,) * 6)
    r = S.run(render, s)
    S.check(r[0] == 'ok' and r[1] == want, 'text is reproduced', lambda: '\n%r\n got %r' % (s, r))

QUOTED = [('p title="t@T@t" | x', '<p title="t@T@t">x</p>'), ("p title='t@T@t' | x", None), ('p {"t@T@t"} | x'.replace('p {', '| {').replace(' | x', ''), 't@T@t'), ('$x = "t@T@t"\n| $x', 't@T@t'), ("| {'t@T@t' : str}", 't@T@t'), ('% H a="t@T@t" | $a\nH', 't@T@t'), ('| {["t@T@t"][0]} {{"t@T@t": 1}["t@T@t"]}'.split(' {{')[0], 't@T@t'), ("$x = r't@T@t'\n| $x", 't@T@t')]
@harness(quick=[{}], thorough=[{'n': 2}], bounds='every character of Unicode except line feed, carriage return, tab, quotes, backslash, $ { }, & < > in quoted strings of attributes and expressions')
def quoted(S, n=1):
    s, e = S.choice('q', QUOTED)
    t = S.text('t', n, ANY - RangeSet.of('\r\t"\'\\${}&<>'))
    if e is None: e = '<p title="t@T@t">x</p>'
    r = S.run(render, fill(s, t, '@T@'))
    S.check(r[0] == 'ok' and r[1] == fill(e, t, '@T@'), 'string is reproduced', lambda: '\n%r\n got %r' % (fill(s, t, '@T@'), r))

COMMENTS = ['# @T@\np | x', '-- @T@\n  @T@\n     @T@\np | x', 'p  # @T@\n  | x', 'p | x\n#@T@', 'p\n  | x\n  # a@T@', '$y = 1 # @T@\np\n  | x', '--@T@ p\n\np | x', '% H  # @T@\n  p\n    | x\nH # @T@', 'if 1 # @T@\n  p\n    | x']
@harness(quick=[{}], thorough=[{'n': 2}], bounds='every character of Unicode except line feed in line, block and end-of-line comments')
def comments(S, n=1):
    s = S.choice('c', COMMENTS)
    t = S.text('t', n, ANY)
    r = S.run(render, fill(s, 't' + t + 't', '@T@'))
    S.check(r[0] == 'ok' and r[1].split() in (['<p>x</p>'], ['<p>', 'x', '</p>']), 'comment is ignored', lambda: '\n%r\n got %r' % (fill(s, 't' + t + 't', '@T@'), r))

@harness(quick=[{'kind': k, 'n': 2} for k in '|/!'], thorough=[{'kind': k, 'n': 3} for k in '|/!'], bounds='two (thorough: three) characters of whitespace of any kind, or letters, at the end of a line of text, in the headline and below')
def trailing(S, kind, n):
    t = S.text('t', n, (RangeSet.of('a') if kind != '|' else RangeSet.of('ab')) | SPACE)
    k = n
    while k > 0 and S.conc(t[k - 1] != 'a' and t[k - 1] != 'b'): k -= 1
    s = kind + ' t' + t + '\n  u' + t + '\np ' + kind + ' v' + t + '\ndiv\n  ' + kind + ' w' + t + '\n'
    want = 't' + t[:k] + '\nu' + t[:k] + '\n<p>v' + t[:k] + '</p>\n<div>\n  w' + t[:k] + '\n</div>\n'
    r = S.run(render, s)
    S.check(r[0] == 'ok' and r[1] == want, 'trailing whitespace is dropped, other kept', lambda: '\n%r\n got %r\n expected %r' % (s, r, want))

@harness(quick=[{'kind': k, 'n': 2} for k in '|/!'], thorough=[{'kind': k, 'n': 3} for k in '|/!'], bounds='two characters of whitespace of any kind, or letters, at the beginning and in the middle of the text of a headline; the separating space is dropped')
def leading(S, kind, n):
    t = S.text('t', n, RangeSet.of('a') | SPACE)
    s = kind + t + 'u' + t + 'v\ndiv\n  b' + kind + t + 'w\n'
    d = t[1:] if S.conc(t[0] == ' ') else t
    r = S.run(render, s)
    # one tab after the marker is dropped like a space
    d2 = t[1:] if S.conc(t[0] == ' ' or t[0] == '\t') else t
    want = [x + 'u' + t + 'v\n<div>\n  <b>' + y + 'w</b>\n</div>\n' for x in (d, d2) for y in (d, d2)]
    S.check(r[0] == 'ok' and r[1] in want, 'leading whitespace', lambda: '\n%r\n got %r' % (s, r))

HEADS = ['|', 'p |', 'div : b |', 'x |', 'p title="q" /', '!', 'p !']
@harness(quick=[{'h': h, 'n': n} for h in range(len(HEADS)) for n in (2,)], thorough=[{'h': h, 'n': 3} for h in range(len(HEADS))],
         bounds='text of a headline and two (thorough: three) lines below; every indentation of those lines up to three beyond the headline text; one to three columns after the marker or an empty headline; blank lines in between')
def subindent(S, h, n):
    mark = HEADS[h].replace('x', 'section')
    lead = len(mark)
    gap = S.choice('gap', [None, 0, 1, 2])
    s = mark + (' ' * gap + 'h' if gap is not None else '')
    cols = [lead + gap] if gap is not None else []
    tails = []
    steps = [1, 2, lead, lead + 1, lead + 2, lead + 3]
    steps = [x for i, x in enumerate(steps) if x > 0 and x not in steps[:i]]
    for i in range(n):
        c = S.choice('c%d' % i, steps)
        blank = S.flag('b%d' % i) if n < 3 or i == 1 else False
        tails.append((blank, c))
    # all lines below must be consistently indented: what follows a deeper line may return only to an indentation used before
    stack = [0]
    for b, c in tails:
        while stack[-1] > c: stack.pop()
        if stack[-1] != c: stack.append(c)
    text = 'abc'
    for i, (b, c) in enumerate(tails):
        s += ('\n' if b else '') + '\n' + ' ' * c + text[i]
        cols.append(c)
    common = min(cols)
    cut = min(common, lead + 1)
    head = ''
    if gap is not None: head = ' ' * (gap - 1 if gap else 0) + 'h'
    body = head + ''.join([('\n' if b else '') + '\n' + ' ' * (c - cut) + text[i] for i, (b, c) in enumerate(tails)])
    open_ = {'p |': '<p>', 'div : b |': '<div><b>', 'section |': '<section>', 'p title="q" /': '<p title="q">', 'p !': '<p>'}.get(mark, '')
    close = {'p |': '</p>', 'div : b |': '</b></div>', 'section |': '</section>', 'p title="q" /': '</p>', 'p !': '</p>'}.get(mark, '')
    r = S.run(render, s)
    if gap is None:
        # an empty headline: the text starts on the next line; the closing tag may stand on its own line
        ok = r[0] == 'ok' and (r[1].replace('\n' + close, close) if close else r[1]) == open_ + body + close
    else: ok = r[0] == 'ok' and r[1] == open_ + body + close
    S.check(ok, 'sub-indentation', lambda: '\n%s\n got %r\n expected %r' % (s, r, open_ + body + close))

@harness(quick=[{}], bounds='lines of text indented with any mixture of up to three tabs and spaces below the first one: their relative indentation is kept')
def mixed(S):
    base = S.choice('base', ['\t', ' ', '  ', '\t '])
    ws = RangeSet.of(' \t')
    a, b = S.string('a', 2, ws), S.string('b', 1, ws)
    mark = S.choice('mark', ['|', 'p |', '!'])
    s = mark + ' h\n' + base + a + 'x\n' + base + a + b + 'y\n' + base + 'z\n'
    r = S.run(render, s)
    S.check(r[0] == 'ok', 'rendered', lambda: '%r %r' % (s, r))
    out = r[1].replace('<p>', '').replace('</p>', '').split('\n')
    S.check(out[0] == 'h' and len(out) == 5 and out[3].endswith('z'), 'lines', lambda: '%r %r' % (s, r))
    p = out[3][:-1]
    S.check(base.endswith(p) and out[1] == p + a + 'x' and out[2] == p + a + b + 'y', 'relative indentation', lambda: '%r %r' % (s, r))

TOKENS = [('$$', '$'), ('{{', '{'), ('}}', '}'), ('T', 'T'), ('$v', 'V'), ('{v}', 'V'), (' ', ' '), ('{ v }', 'V'), ('"', '"'), ("'", "'"), ('#', '#'), ('\\', '\\')]
@harness(quick=[{'n': 3, 'mark': '|'}] + [{'n': 2, 'mark': m} for m in ('/', 'p |', '! ')], thorough=[{'n': 4, 'mark': m} for m in '|/'], bounds='all sequences of three (thorough: four) of: the three escapes, embeddings, quotes, hash, backslash, space and a symbolic letter; in plain text, markup and verbatim')
def escapes(S, n, mark):
    toks = []
    for i in range(n):
        # an embedding may be followed by a trailer or qualifier: only unambiguous sequences
        prev = toks[-1][0] if toks else ''
        toks.append(S.choice('t%d' % i, [x for x in TOKENS if not (prev == '$v' and x[0] == 'T') and not (prev.endswith('{') and x[0].startswith('{') and prev != '{{')]))
    c = S.text('c', 1, LOWER)
    src = ''.join([c if t == 'T' else t for t, _ in toks])
    out = ''.join([c if t == 'T' else o for t, o in toks])
    # the pairs are read from the left
    S.assume(not ambiguous([t for t, _ in toks]))
    s = 'context $v\n' + mark + '.' + src + '.\n'
    r = S.run(render, s, v='V')
    if mark == '! ': want = '.' + src + '.\n'
    elif mark == 'p |': want = '<p>.' + out + '.</p>\n'
    else: want = '.' + out + '.\n'
    S.check(r[0] == 'ok' and r[1] == want, 'escapes and embeddings', lambda: '\n%s got %r expected %r' % (s, r, want))

def ambiguous(toks):
    """Would reading two-character escapes from the left give other tokens?"""
    text, ends, k = ''.join(toks), [], 0
    for t in toks:
        k += len(t)
        ends.append(k)
    for i, t in enumerate(toks[:-1]):
        if t in ('{v}', '{ v }') and toks[i + 1].startswith('}'): return False if toks[i + 1] == '}}' else True
        if t == '$v' and (toks[i + 1] in ('"', "'", '[', '(') or toks[i + 1].startswith('{')) : return False
    return False

@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='values of two (thorough: three) arbitrary characters including line breaks, whitespace and the internal ones, embedded in text at the top level')
def values(S, n):
    v = S.text('v', n, UNI)
    mark = S.choice('mark', ['|', '/'])
    r = S.run(render, 'context $v\n' + mark + ' a{v}b$v\n  {v}c\n', v=v)
    e = esc(v) if mark == '|' else v
    want = 'a' + e + 'b' + e + '\n' + e + 'c\n'
    S.check(r[0] == 'ok' and r[1] == want, 'value is reproduced', lambda: '%r got %r' % (v, r))

@harness(quick=[{'mark': m} for m in ('|', '/')], thorough=[{'mark': m, 'n': 3} for m in ('|', '/')],
         bounds='values that begin with whitespace of any kind, embedded at the head or the tail lines of a text with no, one or two separating spaces, at the top level or below tags')
def edges(S, mark, n=2):
    t = S.text('t', n, RangeSet.of('a') | SPACE)
    gap = S.choice('gap', ['', ' ', '  '])
    emb = S.choice('emb', ['{v}', '$v', '{v}$v'])
    head = S.choice('head', ['', 'p ', '. '])
    tail = S.choice('tail', ['', '\n  {v}', '\n      x'])
    if head == 'p ': S.assume(not tail)
    s = 'context $v\n' + head + mark + gap + emb + '.' + tail + '\n'
    val = t + 'b'
    r = S.run(render, s, v=val)
    body = gap[1:] + (val if emb != '{v}$v' else val + val) + '.'
    if tail == '\n  {v}': body = body + '\n' + ' ' * max(0, 2 - len(head + mark + gap[:1])) + val
    if tail == '\n      x':
        body = body + '\n' + ' ' * max(0, 6 - len(head + mark + gap[:1])) + 'x'
    S.observe('r', r)
    S.check(r[0] == 'ok' and r[1].lstrip('\n') == (('<p>' + body + '</p>') if head == 'p ' else body) + '\n', 'value at the edge', lambda: '%r -> %r expected %r' % (s, r, body))
