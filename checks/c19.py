from checks.common import *
from checks.c12 import Mem, HyLoader, PyLoader
from checks.c22 import SPACES

TEXT = CH - RangeSet.of('\r')                 # a comment extends to the end of its line; C14 covers the rest
MODULES = {'m': '# c\n$x = "mx"\n% K a\n  i | K$a\n'}

# Skeletons: a flag before each line says whether a block may be inserted before the line at its indentation ('!': it may not:
# the line is an 'else' clause or it continues a text) and whether a block may be the only one nested under the line ('+').
# An end-of-line comment may stand at ¶.
SKEL = {
    'plain': """
 div¶
     p | $x
     / <b>
+    hr a="1"¶
 | end
""",
    'deep': """
 div .c¶
     ul #i¶
         li: b¶
             | a
!              b
             i | c

         li | $x

+    h1¶

 p | z
""",
    'cond': """
 if x¶
     p | yes
!elif False¶
     p | no
!else¶
     p | never
 if not x¶
     | A
!else¶
     b | B
+p : em¶
""",
    'loop': """
 $n = 0¶
 for i in [1, 2]¶
     $n = n + i¶
     li¶
         | $i
!else¶
     p | else
 while n > 1¶
     $n = n - 2¶
     | n=$n
 | $n
""",
    'try': """
 try¶
     p | a {1/0}
!else¶
     p¶
         | b
 ? | {1/0}
 try
     b | $x
 ? i | $y
 | c
""",
    'hyper': """
 % F @b k="d"¶
     $z = k¶
     div title=$z¶
         @b¶
     | $k
 F¶
     p | $x

     | q
 F "w"¶
     b | r
+F k=$x¶
""",
    'slots': """
 % G @b¶
     | $len(b)
     @ b['p'][0]¶
     @ b[-1]¶
     for n in b¶
         i
             @n¶
 G¶
     p | a
     b | c

     h1 | $x
""",
    'context': """
 context $x, $y¶
 context $f¶
 from m import %K, $x as w¶
 K "1"
 | $w
 K a=$f(2)¶
 p | $y
""",
    'append': """
 p | a
 ... b | c
 ... i¶
     | d
 < ul¶
     li | e
     ... | f
""",
    'nested': """
 % H a¶
     % J b¶
         p | $a$b
     J 1
     if a¶
         J 2
 H "h"¶
 . | n
 div : H 0¶
 H { 5 }¶
""",
}
VARS = ['context $x, $y, $f']

def parse(src):
    """Lines of a skeleton: (text with ¶, indentation, may a block be inserted before, may a block be nested under)"""
    out = []
    for l in src[1:-1].split('\n'):
        flag, text = l[:1] or ' ', l[1:]
        out.append((text, len(text) - len(text.lstrip()), flag != '!' and text != '', flag == '+'))
    return out

def places(lines):
    """All places where a block may be inserted: (number of the line before which it goes, indentation)"""
    out = set(); prev = None
    for k, (text, ind, before, under) in enumerate(lines):
        if text == '': continue
        j = k
        while j > 0 and lines[j - 1][0] == '': j -= 1                        # insertion before the blank lines: they stay with the next block
        if before: out.add((k, ind)); out.add((j, ind))
        if prev is not None and prev > ind: out.add((j, prev))
        if under: out.add((k + 1, ind + 2))
        if before or text[:2] == 'el': prev = ind                             # not the lines of a text
    out.add((len(lines), 0)); out.add((len(lines), prev))
    return sorted(out)

def join(lines): return '\n'.join([l.replace('¶', '') for l in lines]) + '\n'

BASE = {}               # the skeletons contain nothing symbolic: rendered once

class Log(object):
    def __init__(self): self.n = 0

def run(S, skel, lines, log=None):
    def f(v):
        if log is not None: log.n += 1
        return 'f%s' % v
    head = '' if skel == 'context' else VARS[0] + '\n'
    rt = HyperHTML([Mem(MODULES), HyLoader, PyLoader])
    return S.run(lambda: rt.render(head + lines, x='X&', y='Y', f=f))

def compare(S, skel, lines, new, what):
    log = Log()
    if skel not in BASE:
        log0 = Log()
        BASE[skel] = run(S, skel, join(lines), log0), log0.n
    want, n0 = BASE[skel]
    S.check(want[0] == 'ok', 'the skeleton renders', lambda: '%s\n%r' % (join(lines), want))
    got = run(S, skel, join(new), log)
    S.check(got[0] == 'ok' and got[1] == want[1], what, lambda: '%s\n got %r\n expected %r' % (join(new), got, want))
    S.check(log.n == n0, 'nothing in a comment is evaluated', lambda: join(new))

# @I@: indentation of the block
COMMENTS = ['# @T@', '--@T@', '#@T@', '-- p $f(1)', '# { @T@', '--', '#\n@I@  x@T@', '# a\n@I@  {f(1)}\n\n@I@    % H @T@\n@I@   $f(2)', '-- a\n@I@      deep\n@I@  x@T@']
PASSES = ['pass', 'pass # x@T@', 'pass   --', 'pass    ']

def insert(lines, k, block, ind):
    return lines[:k] + [(' ' * ind + block.replace('@I@', ' ' * ind))] + lines[k:]

@harness(quick=prod(skel=sorted(SKEL)), thorough=prod(skel=sorted(SKEL), n=[2], few=[0]),
         bounds='a line or block comment of four (thorough: nine) shapes with n symbolic characters at every place of ten scripts where a block may stand')
def comment(S, skel, n=1, few=1):
    t = S.text('t', n, TEXT - RangeSet.of(' \t'))
    L = parse(SKEL[skel]); P = places(L); lines = [l[0] for l in L]
    k, ind = P[S.pick('place', len(P))]
    c = fill(S.choice('comment', COMMENTS[1:2] + COMMENTS[4:5] + COMMENTS[6:8] if few else COMMENTS), t)
    compare(S, skel, lines, insert(lines, k, c, ind), 'a comment changes nothing')

@harness(quick=prod(skel=sorted(SKEL)), thorough=prod(skel=sorted(SKEL), few=[0]), bounds='pass with or without an end-of-line comment at every place where a block may stand')
def no_op(S, skel, few=1):
    t = S.text('t', 1, TEXT)
    L = parse(SKEL[skel]); P = places(L); lines = [l[0] for l in L]
    P = [(k, i) for k, i in P if not (skel == 'context' and k < 2)]           # context blocks may be preceded by comments and other context blocks only
    k, ind = P[S.pick('place', len(P))]
    c = fill(S.choice('pass', PASSES[:2] if few else PASSES), t)
    compare(S, skel, lines, insert(lines, k, c, ind), 'pass changes nothing')

EOL = [' # @T@', ' -- @T@', ' #: @T@', '   --@T@', ' # "{ $f(1)', ' #', ' -- # | $nope']

@harness(quick=prod(skel=sorted(SKEL)), thorough=prod(skel=sorted(SKEL), n=[2], few=[0]), bounds='an end-of-line comment of three (thorough: seven) shapes with n symbolic characters at every place of ten scripts where it may stand')
def inline(S, skel, n=1, few=1):
    t = S.text('t', n, TEXT)
    lines = [l[0] for l in parse(SKEL[skel])]
    P = [k for k in range(len(lines)) if lines[k][-1:] == '¶']
    k = P[S.pick('place', len(P))]
    c = fill(S.choice('comment', EOL[1:6:2] if few else EOL), t)
    compare(S, skel, lines, lines[:k] + [lines[k][:-1] + c] + lines[k + 1:], 'an end-of-line comment changes nothing')

@harness(quick=prod(skel=['deep', 'hyper']), thorough=prod(skel=sorted(SKEL), many=[4]), bounds='several comments and pass blocks at once (two to four), at any places of the script')
def several(S, skel, many=2):
    t = S.text('t', 1, TEXT)
    L = parse(SKEL[skel]); P = places(L); lines = [l[0] for l in L]
    if skel == 'context': P = [p for p in P if p[0] >= 2]
    new = lines
    last = len(P)
    for i in range(many):
        last = S.pick('p%d' % i, 4) * last // 4 if last > 4 else last // 2
        k, ind = P[last]
        new = insert(new, k, fill((COMMENTS[:1] + COMMENTS[7:8] + PASSES[:1])[S.pick('c%d' % i, 3)], t), ind)
    compare(S, skel, lines, new, 'comments change nothing')

# what stands in a comment is no block: nothing is defined, assigned, imported or required to be consistent
DEAD = ['$x = 1', '% p @b\n    | no', 'from nowhere import $x', 'context $nothing', 'p | {1/0}', '| $undefined', '{', 'if', '"', 'else', '@nothing', 'undefinedtag', '% x y', '... | a', '< p', 'pass pass',
        '$f(1)', '{f(1)}!', '-- # --', '| a $', 'comment | x', '-->', 'return', '# ¶']
@harness(quick=[{}], thorough=[{'n': 3}], bounds='twenty four statements commented out, preceded by n arbitrary characters, in a line, a block or at the end of a line')
def dead(S, n=1):
    t = S.text('t', n, TEXT)
    d = S.choice('dead', DEAD)
    how = S.pick('how', 5)
    log = Log()
    if how == 0: new = '# ' + t + d.replace('\n', '\n    ') + '\n'
    elif how == 1: new = '--\n    ' + d.replace('\n', '\n    ') + '\n  x' + t + '\n'
    elif how == 2: new = '#' + t + '\n        deeper\n    ' + d.replace('\n', '\n        ') + '\n'
    elif how == 3: new = 'pass --' + t + d.split('\n')[0] + '\n'
    else: new = 'div # ' + t + d.split('\n')[0] + '\n'
    body = 'p | $x $f(0)\n'
    if how == 4: body = '  ' + body
    r = run(S, 'dead', new + body + '| $y\n', log)
    want = '<p>X&amp; f0</p>\n'
    if how == 4: want = '<div>\n  ' + want + '</div>\n'
    S.check(r == ('ok', want + 'Y\n'), 'a comment defines, evaluates and prints nothing', lambda: '%s\n got %r' % (new + body, r))
    S.check(log.n == 1, 'nothing in a comment is evaluated', lambda: new)

# a text block with the null tag is the text block
NULLS = [('@I@| @T@', '@I@. | @T@'), ('@I@/ @T@', '@I@. / @T@'), ('@I@! @T@', '@I@. ! @T@'), ('@I@| @T@\n@I@  more', '@I@. | @T@\n@I@    more'), ('@I@/ @T@\n@I@    q$x', '@I@.   / @T@\n@I@        q$x'), ('@I@| $x', '@I@. | $x')]

@harness(quick=prod(skel=sorted(SKEL)), thorough=prod(skel=sorted(SKEL), n=[3], few=[0]), bounds='a text block with and without the null tag at every place where a block may stand, n symbolic characters')
def null(S, skel, n=1, few=1):
    t = 'x' + S.text('t', n, PLAIN - SPACES)
    L = parse(SKEL[skel]); P = places(L); lines = [l[0] for l in L]
    P = [(k, i) for k, i in P if not (skel == 'context' and k < 2)]
    k, ind = P[S.pick('place', len(P))]
    a, b = S.choice('form', NULLS[1:4:2] if few else NULLS)
    one = lines[:k] + [fill(a, t).replace('@I@', ' ' * ind)] + lines[k:]
    two = lines[:k] + [fill(b, t).replace('@I@', ' ' * ind)] + lines[k:]
    want, got = run(S, skel, join(one)), run(S, skel, join(two))
    S.check(want[0] == got[0] and (want[0] == 'err' or want[1] == got[1]), 'a null tag changes nothing', lambda: '%s\n got %r\n expected %r' % (join(two), got, want))

def words(out): return [l for l in [l.strip() for l in out.split('\n')] if l]

@harness(quick=prod(skel=['plain', 'deep', 'cond', 'try']), bounds='each block of four scripts with all its contents wrapped in a null tag: the same lines of output but for their indentation and the blank line of the null tag')
def wrap(S, skel):
    x = S.text('x', 1, VAL - NL - SPACES)
    L = parse(SKEL[skel]); lines = [l[0] for l in L]
    P = [k for k in range(len(L)) if L[k][2] and not (k + 1 < len(L) and L[k + 1][0][:5] == '!else')]
    k = P[S.pick('place', len(P))]
    ind = L[k][1]
    end = k + 1
    while end < len(L) and (L[end][1] > ind or L[end][0] == '' or (L[end][1] == ind and not L[end][2])): end += 1
    new = lines[:k] + [' ' * ind + '.'] + [('   ' + l if l else '') for l in lines[k:end]] + lines[end:]
    want, got = run(S, skel, join(lines)), run(S, skel, join(new))
    S.check(want[0] == 'ok' and got[0] == 'ok' and words(want[1]) == words(got[1]), 'the null tag keeps its body', lambda: '%s\n got %r\n expected %r' % (join(new), got, want))
    # a value in a null tag, inline
    for s in ['. / $x', '. ! $x', '. | {x}', 'p : b\n  . / $x', 'if x\n  . / $x']:
        a, b = S.run(render, 'context $x\n' + s + '\n', x=x), S.run(render, 'context $x\n' + s.replace('. ', '') + '\n', x=x)
        S.check(a == b, 'null tag around a value', lambda: '%s got %r expected %r' % (s, a, b))

@harness(quick=[{}], bounds='the comment tag: its body of one or two symbolic characters is printed and evaluated')
def comment_tag(S):
    t = S.text('t', 2, PLAIN - SPACES)
    log = Log()
    r = run(S, 'tag', 'comment ! ' + t + '\ncomment | ' + t + '$f(1)\ndiv\n  comment\n    p | $x\n  # ' + t + '{f(2)}\n', log)
    S.check(r == ('ok', '<!--' + t + '-->\n<!--' + esc(t) + 'f1-->\n<div>\n  <!--\n    <p>X&amp;</p>\n  -->\n</div>\n'), 'comment tag', lambda: repr((t, r)))
    S.check(log.n == 1, 'the body of a comment tag is evaluated once', '')
