from checks.common import *

# places a text block may stand at: script with M for the block's mark and @T@ for the text, expected output
PLACES = {
    'block':   ('M -@T@-', '-@T@-'),
    'head':    ('p M -@T@-', '<p>-@T@-</p>'),
    'nogap':   ('pM-@T@-', '<p>-@T@-</p>'),
    'tail':    ('p M x\n    -@T@-\n  y', '<p>x\n  -@T@-\ny</p>'),
    'block2':  ('M x\n  -@T@-', 'x\n-@T@-'),
    'nested':  ('div\n  p\n    M -@T@-\n  M z', '<div>\n  <p>\n    -@T@-\n  </p>\n  z\n</div>'),
    'chain':   ('div : p : b M -@T@-', '<div><p><b>-@T@-</b></p></div>'),
    'hyper':   ('% H @b\n  p\n    @b\nH\n  M -@T@-', '<p>\n  -@T@-\n</p>'),
    'hyperin': ('% H @b\n  p M -@T@-\nH', '<p>-@T@-</p>'),
    'twice':   ('% H @b\n  i @b\n  b @b\nH M -@T@-', '<i>-@T@-</i>\n<b>-@T@-</b>'),
    'select':  ('% H @b\n  @b["i"]\nH\n  u\n    i M -@T@-', '<i>-@T@-</i>'),
    'loop':    ('for k in [1,2]\n  p M -@T@-', '<p>-@T@-</p>\n<p>-@T@-</p>'),
    'if':      ('if 1 M -@T@-\nelse M z', '-@T@-'),
    'else':    ('if 0 M z\nelse M -@T@-', '-@T@-'),
    'try':     ('try\n  p {0/0}\n  M z\nelse\n  M -@T@-', '-@T@-'),
    'try1':    ('? M -@T@-', '-@T@-'),
    'while':   ('$ n = 1\nwhile n\n  $ n = 0\n  M -@T@-', '-@T@-'),
    'null':    ('. M -@T@-', '-@T@-'),
    'append':  ('b | q\n... M -@T@-', '<b>q</b>-@T@-'),
    'dedent':  ('div\n  < M -@T@-', '<div>\n-@T@-\n</div>'),
    'custom':  ('custom "x-y" M -@T@-', '<x-y>-@T@-</x-y>'),
}

def place(where, mark):
    s, e = PLACES[where]
    return s.replace('M', mark), e

ALL = sorted(PLACES)
FEW = ['head', 'tail', 'hyper', 'select', 'else']


@harness(quick=prod(where=ALL, n=[1]) + prod(where=FEW, n=[2]), thorough=prod(where=ALL, n=[2]) + prod(where=['head', 'hyper'], n=[3]),
         bounds='script text -t+t+t- at one of the listed places, t: n arbitrary characters other than $ { } and line breaks')
def plain_literal(S, where, n):
    t = S.text('t', n, PLAIN)
    s, e = place(where, '|')
    got = render(fill(s, 't' + t + 't', '@T@'))
    S.observe('out', got)
    S.eq(got, fill(e, 't' + esc(t) + 't'), 'plain text is escaped exactly once')


EMBED = ['$x', '{x}', '{x}$y', '{$x}', '{d.x}', '{d["x"]}', '{x y}', '{"" x ""}', '{"$x"}', "{'{x}'}", '{x if 1 else y}', '{[x, y][0]}', '{x.strip("")}',
         '{x : str}', '{x or y}', '{f(x)}', '{x}?', '{x!}', '$d["x"]', '{("%s" % x)}']

class Rec(object):
    def __init__(self, x): self.x = x
    def __getitem__(self, k): return self.x

PRE = 'context $x, $y, $d, $f\n'

@harness(quick=prod(where=ALL, how=[0], n=[2]) + prod(where=['head', 'tail'], how=list(range(len(EMBED))), n=[1]),
         thorough=prod(where=ALL, how=list(range(len(EMBED))), n=[2]) + prod(where=['head', 'hyper', 'tail'], how=[0, 1], n=[4]),
         bounds='value of n arbitrary characters without line breaks, embedded between two letters')
def plain_value(S, where, how, n):
    t = S.text('t', n, CH)
    s, e = place(where, '|')
    got = render(PRE + fill(s, EMBED[how]), x=t, y='', d=Rec(t), f=lambda v: v)
    S.observe('out', got)
    S.eq(got, fill(e, esc(t)), 'value in plain text is escaped exactly once')


@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='string literal of n characters other than quotes, backslash, $ { } embedded in plain text')
def plain_string(S, n):
    t = S.text('t', n, CH - RangeSet.of('${}\'"\\'))
    got = render('p | {"' + t + '"}{\'' + t + '\'}{r"' + t + '"}.')
    S.observe('out', got)
    S.eq(got, '<p>' + esc(t) * 3 + '.</p>', 'string expression in plain text is escaped exactly once')


@harness(quick=prod(where=ALL, n=[1]) + prod(where=FEW, n=[2]), thorough=prod(where=ALL, n=[2]),
         bounds='as plain_literal, for / blocks; the text is followed by an embedded value')
def markup_literal(S, where, n):
    t = S.text('t', n, PLAIN)
    s, e = place(where, '/')
    got = render(fill(s, 't' + t + 't', '@T@'))
    S.observe('out', got)
    S.eq(got, fill(e, 't' + t + 't'), 'markup text is not escaped')


@harness(quick=prod(where=ALL, how=[0], n=[2]) + prod(where=['head'], how=list(range(len(EMBED))), n=[1]),
         thorough=prod(where=ALL, how=list(range(len(EMBED))), n=[2]), bounds='as plain_value, for / blocks')
def markup_value(S, where, how, n):
    t = S.text('t', n, CH)
    s, e = place(where, '/')
    got = render(PRE + fill(s, EMBED[how]), x=t, y='', d=Rec(t), f=lambda v: v)
    S.observe('out', got)
    S.eq(got, fill(e, t), 'value in markup text is not escaped')


@harness(quick=prod(where=ALL, n=[1]) + prod(where=FEW, n=[2]), thorough=prod(where=ALL, n=[2]) + prod(where=['head'], n=[3]),
         bounds='script text -t+t+t- of ! blocks, t: n arbitrary characters other than line breaks ($ { } included)')
def verbatim_literal(S, where, n):
    t = S.text('t', n, CH)
    s, e = place(where, '!')
    got = render(fill(s, 't' + t + 't', '@T@'))
    S.observe('out', got)
    S.eq(got, fill(e, 't' + t + 't'), 'verbatim text is passed through unchanged')


@harness(quick=[{}], bounds='plain, markup and verbatim blocks side by side, 2 arbitrary characters of a value and a literal')
def mixed(S):
    t = S.text('t', 2, CH); u = S.char('u', PLAIN)
    got = render('context $x\ndiv\n  p | {x}a' + u + 'a\n    i{x}\n  p / {x}a' + u + 'a\n  p ! {x}a' + u + 'a\n  | $x\n  / $x.\n', x='k' + t + 'k')
    k = 'k' + t + 'k'
    S.observe('out', got)
    S.eq(got, '<div>\n  <p>' + esc(k) + 'a' + esc(u) + 'a\n  i' + esc(k) + '</p>\n  <p>' + k + 'a' + u + 'a</p>\n  <p>{x}a' + u + 'a</p>\n  ' +
         esc(k) + '\n  ' + k + '.\n</div>\n', 'each kind of block treats its own text')
