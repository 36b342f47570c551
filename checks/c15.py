import re
from checks.common import *
from hypertag.core.errors import HError, SyntaxErrorEx
from hypertag import TagFunction

def line_of(ex):
    m = re.search(r'line (\d+)', str(ex))
    return int(m.group(1)) if m else None

# lines that are not Hypertag
BAD = ['p {', '| {x', '$', '$ = 1', '%', '% 1', 'if', 'for x', 'for x in', 'p title=', 'p "abc', '| a }', '| $ 5', '@', 'p ..x', '& p', '<', 'p | {1 +}', 'from x import', 'import x', '1', '"a"', ')', 'while', 'p a =', 'p(', '{x}', 'p :: a', 'p : : a', 'break', '. .a', '...', '< <p', '? ? p', '$x =', '% H @', '% H x=',
       'p .', 'p 1 title=', 'div a==1', 'try x', 'for 1 in x', 'p @', '| {x y', 'p "a" "b', 'p {1 2', '$x = 1 +', '$x = {', 'p | {x!!}', '% H x y= | z', '| {x[}', '| {f(}', '| {[1, }', "| {'}", 'p a="{"', 'p a={', 'p : 5', 'if x ==', '/ {', 'p / }', 'try : x', '= 1', '== p', '| {a b c', '@ b[', ', p', '* p', '~', 'p , q', 'p title="a"b', 'p a=1,b=2', '$x, = ']
# lines that are not syntactically wrong only where no 'if' or 'for' precedes
ORPHANS = ['else', 'elif 1', 'else | x', 'elif x | y']

# documents with @@ lines, before which a line may be inserted (at the indentation of the mark)
DOCS = ['p | x\n@@\ndiv\n  @@\n  p\n    b | y\n    @@\n  | z\n@@', '| x\n  y\n    z\n@@\n\n\n| u\n@@', '# c {\n  d }\n@@\np # e\n  @@\n  | x\n\n\n  @@\n\n! {\n  }\n@@', 'if 1\n  p\n    @@\n    | a\n  @@\nelse\n  @@\n  | b\n@@', '% H @b a=1\n  @@\n  @b\n  p\n    @@\nH 2\n  @@\n  | x\n\n@@',
        '\n\n  p | a\n  @@\n  div\n\n    @@\n    | b\n\n', 'for i in [1,2]\n  p | $i\n  @@\nwhile 0 | x\ntry\n  @@\n  | x\nelse\n  @@\n  | y\n@@', 'ul\n\tli : a | x\n\t@@\n\tli\n\t\t@@\n\t\t| y\n@@', '$x = 1\n@@\n$y = [1,2]\n. \n  @@\n  | $x\n@@'.replace('. \n', '.\n')]

def insert(doc, which, text, before, after):
    """The document with text inserted at the mark number `which`; the number of the line."""
    out, k, where = [], 0, None
    for l in doc.split('\n'):
        if l.strip() == '@@':
            if k == which:
                ind = l[:len(l) - 2]
                out += [''] * before
                where = len(out) + 1
                if text is not None: out.append(ind + text)
                out += [''] * after
            k += 1
        else: out.append(l)
    return '\n'.join(out), where

def marks(doc): return doc.count('@@')

@harness(quick=[{'d': d} for d in range(len(DOCS))], bounds='75 malformed lines at every of the 2-5 places of nine documents, with up to two blank lines before and after',
         thorough=[{'d': d, 'more': True} for d in range(len(DOCS))])
def syntax(S, d, more=False):
    doc = DOCS[d]
    which = S.pick('which', marks(doc))
    bad = S.choice('bad', BAD)
    before = S.pick('before', 3) if more else (which + 1) % 3
    s, line = insert(doc, which, bad, before, 0 if not more else S.pick('after', 2))
    good, _ = insert(doc, which, None, before, 0)
    if more or not which: S.check(S.run(render, good)[0] == 'ok', 'the document without the line', good)
    r = S.run(render, s, __file__='/x/y.hy')
    S.check(r[0] == 'err' and isinstance(r[1], SyntaxErrorEx), 'syntax error', lambda: '\n%s\n%r' % (s, r))
    S.check(line_of(r[1]) == line and s.split('\n')[line - 1].strip()[:10] in str(r[1]), 'line of the error', lambda: '\n%s\n%s expected %d' % (s, r[1], line))

@harness(quick=[{}], bounds='clauses without a block they belong to, at the beginning of every body of nine documents')
def orphans(S):
    d = S.pick('d', len(DOCS))
    bad = S.choice('bad', ORPHANS)
    which = S.pick('which', marks(DOCS[d]))
    s, line = insert(DOCS[d], which, '| q\n' + '@I@' + bad, 0, 0)
    # the same indentation for both lines
    ls = s.split('\n')
    ls[line] = ls[line].replace('@I@', ls[line - 1][:len(ls[line - 1]) - len(ls[line - 1].lstrip())])
    s = '\n'.join(ls)
    r = S.run(render, s)
    S.check(r[0] == 'err' and isinstance(r[1], SyntaxErrorEx) and line_of(r[1]) == line + 1, 'clause without a block', lambda: '\n%s\n%r' % (s, r))

FIRST = RangeSet.of('&*()+=[]{};:\'",>\\^~`0123456789')
@harness(quick=[{}], bounds='a line that begins with a symbolic character that cannot begin a block, anywhere in nine documents, with a symbolic comment above')
def first_char(S):
    d = S.pick('d', len(DOCS))
    which = S.pick('which', marks(DOCS[d]))
    c = S.text('c', 1, FIRST)
    rest = S.choice('rest', ['', 'p', ' p', '|x'])
    s, line = insert(DOCS[d], which, c + rest, 1, 1)
    s = ('  ' if d == 5 else '') + '# ' + S.text('n', 1, CH) + '\n' + s
    r = S.run(render, s)
    S.check(r[0] == 'err' and isinstance(r[1], SyntaxErrorEx) and line_of(r[1]) == line + 1, 'line of the error', lambda: '\n%s\n%r' % (s, r))

@harness(quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 3}], bounds='one or two (thorough: three) symbolic printable characters in an expression: either the script is accepted, or the error names the line', outside='longer expressions')
def anything(S, n):
    t = S.text('t', n, RangeSet.of("1a+-*(){}[]'\"$|.,:!?<= %/\\") if n > 1 else PRINT_)
    s = 'context $a\np | x\n\ndiv\n  | {' + t + '}\n  | y\n'
    r = S.run(render, s, a='A')
    if r[0] == 'err' and isinstance(r[1], SyntaxErrorEx): S.check(line_of(r[1]) == 5, 'line of the error', lambda: '\n%s\n%r' % (s, r))
    elif r[0] == 'err' and isinstance(r[1], HError): S.check(line_of(r[1]) == 5, 'line of the error', lambda: '\n%s\n%r' % (s, r))
    elif r[0] == 'err': S.check(not isinstance(r[1], (AssertionError, KeyError, RecursionError, SyntaxError)), 'error of the evaluation', lambda: '\n%s\n%r' % (s, r))

PRINT_ = RangeSet([(32, 126), (0xA0, 0x2FF)])

@harness(quick=[{'n': 3}], thorough=[{'n': 4}], bounds='three (thorough: four) tags indented with up to two (spaces and tabs) characters: accepted exactly when each line continues an open level or opens a new one', outside='deeper nesting')
def indentation(S, n):
    ws = RangeSet.of(' \t')
    ind = [S.string('i%d' % i, 2, ws) for i in range(n)]
    blank = S.flag('blank')
    s = ('\n' if blank else '') + ''.join([ind[i] + 'p\n' + ('\n' if blank and i == 1 else '') for i in range(n)])
    # reference: stack of the indentations that are open
    stack, bad, kind = [], None, None
    cur = ''
    for i in range(n):
        x = ind[i]
        if not (x.startswith(cur) or cur.startswith(x)):
            bad, kind = i, 'indent'
            break
        cur = x
    lines = [k for k, l in enumerate(s.split('\n')) if l.strip()]
    if bad is None:
        for i in range(n):
            x = ind[i]
            while stack and stack[-1] != x and not (len(x) > len(stack[-1])): stack.pop()
            if not stack:
                if i > 0:
                    bad, kind = i, 'syntax'
                    break
                stack.append(x)
            elif stack[-1] == x: pass
            else:
                # deeper than the innermost open level: only directly below a line of that level
                if ind[i - 1] != stack[-1]:
                    bad, kind = i, 'syntax'
                    break
                stack.append(x)
    r = S.run(render, s)
    if bad is None: S.check(r[0] == 'ok', 'consistent indentation', lambda: '%r %r' % (s, r))
    else:
        S.check(r[0] == 'err' and isinstance(r[1], SyntaxError) and (isinstance(r[1], IndentationError) or kind == 'syntax'), 'inconsistent indentation', lambda: '%r %r' % (s, r))
        S.check(line_of(r[1]) == lines[bad] + 1, 'line of the error', lambda: '%r %r expected %d' % (s, r, lines[bad] + 1))

def at(ex, doc):
    """Does the text quoted at the end of the message begin at the line and column it names?"""
    m = re.search(r'line (\d+), column (\d+) \(', str(ex))
    if not m or not ex.text: return False
    line, col = int(m.group(1)), int(m.group(2))
    text = ex.text[:-3] if ex.text[-3:] == '...' else ex.text
    for c in '\u2768\u2769\u276a\u276b\n': text = text.split(c)[0]
    lines = doc.split('\n')
    return 0 < line <= len(lines) and 0 < col and lines[line - 1][col - 1:].startswith(text)

# run-time errors: the line that has the mark E
RUN = ['| $E', 'if 1\n  % E\n    | a\n    p\n      | b\n\n| c', 'for i in [1, 2]\n  p\n    | x\n  % E @b a=1\n    @ b\n\n    b\n  p', '| a\n  b $E\n  c', 'E', 'p\n  E : p\n    | x', 'p : E\n  | x', '% H a E a\n  | x\n  | y'.replace('E a', 'a # E'), '| {None}E', '| a\n  {None}E\n  b', '| {0}!E'.replace('{0}!E', '{{0}!}E').replace('{{0}!}', '{(0)!}'), '% H\n  | x\nH 5 # E\n| k', '% H\n  | x\nH q=5 # E\n| k', '% H a\n  | x\nH # E\n| k',
       '% H\n  | x\nH # E\n  | k\n| k', 'if 0\n  $U = 1\n| {U}E', '$E, b = [1]'.replace('E', 'q').replace('[1]', '[1] # E'), '@ 5 # E', 'p\n  @ 5 # E\n  | k', 'if 1\n  from x import $E', 'div\n  context $E', 'from E import $x', 'from hypertag.builtins import $E', 'p a=1 2 # E', 'p {E}\n  | x', 'p E', 'p title=E\n  | x', 'if E\n  | x',
       'for x in E\n  | x\n  | y', 'while E | x', '| {%E("x")}', '$z = E', '% H a=E\n  | x\nH', '% H @b\n  | x\n  | $E\nH\n  | x', 'p "1" a=1 "2" # E', '% H @b a\n  | x\n\nH 1 b=5 # E', 'p : b : E | z', '| {[E]}', '| {x}\n  {x}{E}', 'p title="$E" | x', '| {"$E"}', 'p .$E', 'if 0 | a\nelif E\n  | y', 'p\n\n\n  | {E : str}', '| {str : E}', '| {x if E else 1}', '$a, b = E', '$x += E',
       'for i in [1]\n  p\n    b\n      | {E}\n    | x', 'p\n  | x\n# E2\np {E}'.replace('E2', 'c')]
WRAP = ['{}', 'div\n  {}', 'p | a\n\n# c {{\nul\n\tli\n\t\t{}\n\t\t| x', '! {{\n  }}\n\n\n{}\n| x', 'if 1\n  div : p\n    b | x\n\n    {}\n    | y\nelse\n  | z', '% K @k\n  | u\n  {}\n  @k\nK | x']

def wrap(w, s):
    out = []
    for l in WRAP[w].replace('{{', '\x01').replace('}}', '\x02').split('\n'):
        if l.strip() == '{}': out += [(l[:-2] + x) if x else x for x in s.split('\n')]
        else: out.append(l.replace('\x01', '{').replace('\x02', '}'))
    return '\n'.join(out)

@harness(quick=[{'w': w} for w in range(len(WRAP))], bounds='48 run-time errors in six contexts; the name of the file symbolic')
def runtime(S, w):
    s = S.choice('e', RUN)
    if w == 2: s = '\n'.join([x.replace('  ', '\t') for x in s.split('\n')])
    doc = 'context $x\n' + wrap(w, s) + '\n| z\n'
    if w and 'context $E' in s: S.assume(False)
    if w == 4 and '% H' in s: S.assume(False)
    if '% H' in s and 'import' in s: S.assume(False)
    line = [k for k, l in enumerate(doc.split('\n')) if 'E' in l][0] + 1
    f = '/d/' + S.text('f', 1, LOWER) + '.hy'
    r = S.run(render, doc, x=1, __file__=f)
    S.check(r[0] == 'err', 'fails', lambda: '\n%s\n%r' % (doc, r))
    if isinstance(r[1], HError):
        S.check(line_of(r[1]) == line, 'line of the error', lambda: '\n%s\n%s expected %d' % (doc, r[1], line))
        S.check(at(r[1], doc), 'column of the error', lambda: '\n%s\n%s' % (doc, r[1]))
        S.check(f in str(r[1]), 'file of the error', lambda: '\n%s\n%s' % (doc, r[1]))
    else: S.check(s.startswith('$q, b') , 'a Hypertag error', lambda: '\n%s\n%r' % (doc, r))
    r = S.run(render, doc, x=1)
    S.check(r[0] == 'err' and (not isinstance(r[1], HError) or line_of(r[1]) == line), 'line of the error without a file', lambda: '\n%s\n%s expected %d' % (doc, r[1], line))

@harness(quick=[{}], bounds='errors in the body of an imported hypertag and of the importing script: file and line of the right script')
def files(S):
    from checks.c12 import Box
    box = Box()
    try:
        k, j = S.pick('k', 4), S.pick('j', 4)
        where = S.choice('where', ['def', 'use', 'syntax', 'default'])
        lib = '\n' * k + '% H @b a={' + ('0' if where != 'default' else 'None[0]?') + '}\n' + '\n' * j + '  p\n    | {' + ('a' if where != 'def' else 'None') + '}\n    @b\n' + ('\np {\n' if where == 'syntax' else '')
        path = box.put('ref/lib.hy', lib)
        main = box.path('ref/main.hy')
        s = 'p | x\n' + '\n' * j + 'from .lib import %H\ndiv\n  H\n' + '\n' * k + '    | {' + ('None' if where == 'use' else '1') + '}\n'
        r = S.run(render, s, __file__=main)
        if where == 'default': S.check(r[0] == 'ok' or not isinstance(r[1], AssertionError), 'default', lambda: '%r' % (r,))
        else:
            S.check(r[0] == 'err', 'fails', lambda: '\n%s\n%s\n%r' % (lib, s, r))
            if where == 'syntax': S.check(isinstance(r[1], SyntaxErrorEx) and line_of(r[1]) == lib.split('\n').index('p {') + 1, 'line in the imported script', lambda: '\n%s\n%s' % (lib, r[1]))
            else:
                text = s if where == 'use' else lib
                line = [i for i, l in enumerate(text.split('\n')) if 'None' in l][0] + 1
                S.check(isinstance(r[1], HError) and line_of(r[1]) == line and (main if where == 'use' else path) in str(r[1]), 'file and line', lambda: '\n%s\n%s\n%s expected %d' % (lib, s, r[1], line))
    finally: box.close()

GOOD = ['p :', 'p |', '?', '! {', 'p #', '--', '#', 'if 1', 'else_ = 1'.replace('else_ = 1', '$else_ = 1'), 'if x | a', 'for i in [1]', 'try', '% Q', '% Q @b', '% Q @b a=1 c', '$y = x', '$y = x # c', '$ y = x', '$y= x', '$y =x', 'p title = 1', 'p title= "a"', 'p a=1 b={x} c=$x', 'custom {x}', 'custom $x', 'p .a #b', 'p #{x}', 'p .{x}', 'p . . a'.replace('p . . a', 'p .a .b'), '.', '. | x',
        'p : b : i', 'p: b :i | x', '< p', '... p', '<p', '...p', '|x', '/x', '!x', 'pass', 'pass # c', '@ []', '| {x}?', '| {x}!', '| $x?', 'custom {x}?', 'p title={x}!', '| { x }', '| {x : str : upper}', '| {[1,2,]} {(1,)} {()} {[]}', '| {x[0:]}', '| {x if x}', '| {not x}', 'while 0 | x', 'x-y | z'.replace('x-y', 'custom "x-y"'), '$u, v = [1, 2]', '$(u, v), w = [[1, 2], 3]', 'for u, v in [[1,2]] | $u', '$n = 1', '$x += "a"', '%Q a', '%  Q a']
@harness(quick=[{'d': d} for d in (0, 2, 3, 4, 7)], bounds='62 well-formed lines at every place of five documents are accepted')
def wellformed(S, d):
    doc = DOCS[d]
    which = S.pick('which', marks(doc))
    t = S.choice('line', [x for x in GOOD if d != 3 or x[0] != '%'])
    s, line = insert(doc, which, t, S.pick('before', 2), 0)
    s = 'context $x\n' + s
    r = S.run(render, s, x='X')
    S.check(r[0] == 'ok', 'accepted', lambda: '\n%s\n%r' % (s, r))
