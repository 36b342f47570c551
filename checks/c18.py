from checks.common import *
from hypertag.core.errors import SyntaxErrorEx, HError

def values(S, lit, **ctx):
    """The value of the literal in an assignment, in text, as an attribute and as a default of a hypertag."""
    got = []
    def rec(x):
        got.append(x)
        return 'R'
    head = 'context ' + ', '.join(['$' + k for k in list(ctx) + ['rec']]) + '\n'
    s = head + '$r = ' + lit + '\n| {rec(' + lit + ')}\n| {rec( ' + lit + ' )}\n% H a ' + ('' if ' ' in lit else 'b=' + lit) + '\n  | {rec(a)}{rec(b)}\n'.replace('{rec(b)}', '' if ' ' in lit else '{rec(b)}') + 'H {' + lit + '}\n' + ('' if ' ' in lit else 'H b=2 a=' + lit + '\nH ' + lit + '\n').replace('b=2 ', '')
    m = HyperHTML().translate(s, rec=rec, **ctx)
    m.dom.render()
    got.append(m.symbols['$r'])
    return got

def same(S, lit, want, **ctx):
    got = S.run(values, S, lit, **ctx)
    S.check(got[0] == 'ok', 'accepted', lambda: '%r %r' % (lit, got))
    S.check(len(got[1]) >= 4, 'evaluated everywhere', lambda: repr(got))
    for g in got[1]: S.check(type(g) is type(want) and g == want, 'value', lambda: '%r gives %r, expected %r' % (lit, g, want))

@harness(quick=[{'n': 1}, {'n': 3}, {'n': 6}], thorough=[{'n': 9}, {'n': 18}], bounds='integers of one, three and six (thorough: nine, eighteen) symbolic digits')
def integers(S, n):
    d = S.text('d', n, DIGIT)
    S.assume(n == 1 or d[0] != '0')
    want = 0
    for c in d: want = want * 10 + (ord(c) - 48)
    r = HyperHTML().translate('$r = ' + d + '\n$s = -' + d + '\n$t = [' + d + ']').symbols
    S.eq(r['$r'], want, 'integer')
    S.eq(r['$s'], -want, 'negative integer')
    S.eq(r['$t'][0], want, 'integer in a list')
    S.eq(type(r['$r']) is int, True, 'type')

@harness(quick=[{'f': f} for f in range(4)], thorough=[{'f': 4}], bounds='real numbers: every form of the literal with digits among 0, 1, 5, 9 at all places')
def floats(S, f):
    d = lambda name, n=1: ''.join([S.choice('%s%d' % (name, i), '0159') for i in range(n)])
    if f == 0: lit = d('a') + '.' + d('b', 2)
    elif f == 1: lit = S.choice('form', ['.%s', '%s.', '%s.5', '0.%s', '.0%s']) % d('a', 2)
    elif f == 2: lit = S.choice('form', ['%se%s%s', '%s.e%s%s', '.%se%s%s', '%s.5E%s%s', '1%s5.25e%s%s']) % (d('a'), S.choice('sign', ['', '+', '-']), S.choice('exp', ['0', '1', '9', '10', '05']))
    elif f == 3: lit = S.choice('num', ['1e400', '123456789012345678', '1e-400', '0.1', '3.14e-10', '9007199254740993.0', '1e22', '0.30000000000000004', '5e-324', '1.7976931348623157e308', '0', '0.0', '10', '100.', '0e0'])
    else: lit = d('a', 2).lstrip('0') + '.' + d('b', 2) + 'e' + S.choice('sign', ['', '+', '-']) + S.choice('c', ['0', '1', '12'])
    want = eval(lit)
    same(S, lit, want)
    got = HyperHTML().translate('$r = -' + lit).symbols['$r']
    S.check(type(got) is type(want) and repr(got) == repr(-want), 'negative', lambda: '%r %r' % (lit, got))

@harness(quick=[{}], bounds='True, False and None alone, in collections and as the beginning of a name')
def constants(S):
    name = S.choice('name', ['True', 'False', 'None'])
    want = {'True': True, 'False': False, 'None': None}[name]
    k = S.pick('k', 4)
    if k == 0: same(S, name, want)
    elif k == 1: same(S, '[' + name + ', ' + name + ']', [want, want])
    elif k == 2: same(S, '(' + name + ',)', (want,))
    else:
        c = S.char('c', LOWER | UPPER | DIGIT | RangeSet.of('_'))
        v = S.int('v', 0, 9)
        S.eq(HyperHTML().translate('context $q\n$' + name + c + ' = q\n$r = ' + name + c, q=v).symbols['$r'], v, 'a name that begins with a constant')

HEX = RangeSet.of('0123456789abcdefABCDEF')

def decode(t):
    """Reference: escape sequences of Python; None if Python rejects the sequence."""
    out, i, n = '', 0, len(t)
    simple = {'\\': '\\', "'": "'", '"': '"', 'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v'}
    while i < n:
        c = t[i]
        if not c == '\\':
            out += c
            i += 1
            continue
        if i + 1 == n:
            out += c
            break
        d = t[i + 1]
        hit = [k for k in simple if d == k]
        if hit:
            out += simple[hit[0]]
            i += 2
        elif '0' <= d <= '7':
            j, v = i + 1, 0
            while j < n and j < i + 4 and '0' <= t[j] <= '7':
                v = v * 8 + int(t[j])
                j += 1
            out += chr(v)
            i = j
        elif d == 'x' or d == 'u' or d == 'U':
            k = 2 if d == 'x' else 4 if d == 'u' else 8
            h = t[i + 2:i + 2 + k]
            if len(h) < k: return 'short'
            if not all([c in '0123456789abcdefABCDEF' for c in h]): return None
            v = int(h, 16)
            if v > 0x10ffff: return None
            out += chr(v)
            i += 2 + k
        else:
            out += c + d
            i += 2
    return out

def check_decoded(S, text, quote):
    lit = quote + text + quote
    want = decode(text)
    if want == 'short' and len(text) < 10: return                   # Python rejects it, Hypertag takes it as it is
    got = S.run(lambda: HyperHTML().translate('$r = ' + lit).symbols['$r'])
    if want is None: S.check(got[0] == 'err' and isinstance(got[1], SyntaxErrorEx) and 'line 1' in str(got[1]), 'invalid escape sequence', lambda: '%r %r' % (lit, got))
    else: S.check(got[0] == 'ok' and got[1] == want, 'decoded text', lambda: '%r gives %r, expected %r' % (lit, got, want))

@harness(quick=[{'n': n, 'q': q} for n in (0, 1, 2, 3) for q in '\'"'], thorough=[{'n': 4, 'q': '"'}], bounds='strings of up to three (thorough: four) Unicode characters, including all escape sequences that fit, in both kinds of quotes')
def strings(S, n, q):
    t = S.text('t', n, CH - RangeSet.of('${}' + q))
    S.assume(not (n >= 4 and any([t[i] == '\\' and t[i + 1] == 'x' for i in range(n - 3)])))
    check_decoded(S, t, q)

@harness(quick=[{'f': f} for f in ('octal', 'hex', 'u', 'U', 'bad', 'two')], bounds='octal escapes of up to four digits, \\x with all pairs of hexadecimal digits, \\u and \\U with digits among 0 1 8 9 a F, invalid digits, two escapes side by side')
def escapes(S, f):
    q = S.choice('q', '\'"')
    if f == 'octal': t = '\\' + ''.join([S.choice('o%d' % i, '0137') for i in range(3)]) + S.choice('o3', '078a')
    elif f == 'hex': t = '\\x' + S.choice('h0', '0123456789abcdefABCDEF') + S.choice('h1', '0123456789abcdefABCDEF') + ('1' if q == '"' else '')
    elif f == 'u': t = 'é\\u' + ''.join([S.choice('h%d' % i, '09aF') for i in range(4)])
    elif f == 'U': t = '\\U000' + ''.join([S.choice('h%d' % i, '01') for i in range(2)]) + S.choice('h2', '0f') + ''.join([S.choice('h%d' % i, '08') for i in (3, 4)]) + '0'
    elif f == 'bad': t = S.choice('e', ['\\x', '\\u00', '\\U000000']) + S.choice('h0', '0gG xz') + S.choice('h1', '0gé-')
    else: t = S.choice('a', ['\\n', '\\\\', '\\101', '\\x41', '\\q', 'x', '\\u0041', '\\0', '\\']) + S.choice('b', ['n', '\\n', '\\\\', 'x41', '\\x41', '1', '\\u0041', 'u0041', ' ', '\\t'])
    S.assume(not (len(t) - len(t.rstrip('\\'))) % 2)
    check_decoded(S, t, q)

PIECES = ['T', '$x', '{x}', '{x + "q"}', "{'a' + x}", '$$', '{{', '}}', '{ [x][0] }', '$x[0]', '{y}', '\\n']
@harness(quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 3}], bounds='formatted strings of one or two (thorough: three) pieces among text with symbolic characters, embeddings, escapes')
def formatted(S, n):
    x = S.text('x', 1, VAL)
    y = S.int('y', 9, 10)
    want, lit = '', ''
    for i in range(n):
        p = S.choice('p%d' % i, PIECES)
        if p == 'T':
            c = S.char('c%d' % i, CH - RangeSet.of('${}\\\'"') - IDCHAR - RangeSet.of('.[(?!'))
            want, lit = want + c, lit + c
        else:
            lit += p
            want += {'$x': x, '{x}': x, '{x + "q"}': x + 'q', "{'a' + x}": 'a' + x, '$$': '$', '{{': '{', '}}': '}', '{ [x][0] }': x, '$x[0]': x, '{y}': str(y), '\\n': '\n'}[p]
    S.assume('$$x' not in lit and '$$$' not in lit and '{{{' not in lit and '}}}' not in lit)
    q = S.choice('q', '\'"')
    if q == '"': lit = lit.replace('"q"', "'q'")
    else: lit = lit.replace("'a'", '"a"')
    r = S.run(lambda: HyperHTML().translate('context $x, $y\n$r = ' + q + lit + q, x=x, y=y).symbols['$r'])
    S.check(r[0] == 'ok' and r[1] == want, 'formatted string', lambda: '%r gives %r, expected %r' % (lit, r, want))
    r = S.run(lambda: HyperHTML().translate("context $x, $y\n% H a\n  | x\n$r = ('u' " + q + lit + q + ')', x=x, y=y).symbols['$r'])
    S.check(r[0] == 'ok' and r[1] == 'u' + want, 'concatenated', lambda: '%r gives %r, expected %r' % (lit, r, want))

@harness(quick=[{'n': 1}, {'n': 2}, {'n': 3}], thorough=[{'n': 5}], bounds='raw strings of up to three (thorough: five) Unicode characters other than the quote')
def raw(S, n):
    q = S.choice('q', '\'"')
    t = S.text('t', n, CH - RangeSet.of('"')) if q == '"' else S.text('t', n, CH - RangeSet.of("'"))
    got = []
    def rec(x):
        got.append(x)
        return 'R'
    out = render_ctx('$a = r' + q + t + q + '\n/ {a}\n| {rec(r' + q + t + q + ')}\np title=r' + q + t + q + ' | {r' + q + q + '}', rec=rec)
    S.eq(got[0], t, 'raw string')
    S.check(out.startswith(t + '\nR\n<p'), 'raw string', lambda: repr(out))

def item(S, i):
    """(source, value) of an item of a collection"""
    k = S.pick('item%d' % i, 5)
    if k == 0: return '%d' % (i + 1), i + 1
    if k == 1:
        c = S.char('c%d' % i, LOWER)
        return '"' + c + '"', c
    if k == 2: return 'v%d' % i, None
    if k == 3: return '[]', []
    return '(%d, "x")' % i, (i, 'x')

@harness(quick=[{'kind': k, 'n': n} for k in ('list', 'tuple', 'set', 'dict') for n in (0, 1, 2)], thorough=[{'kind': k, 'n': 3} for k in ('list', 'tuple', 'set', 'dict')],
         bounds='displays of up to two (thorough: three) items among numbers, strings, variables, nested collections, with and without trailing comma and spaces')
def collections(S, kind, n):
    ctx = {'v%d' % i: S.int('v%d' % i, 0, 2) for i in range(n)}
    its = [item(S, i) for i in range(n)]
    its = [(s, ctx['v%d' % i] if s == 'v%d' % i else v) for i, (s, v) in enumerate(its)]
    if kind in ('set', 'dict'): S.assume(not any([isinstance(v, list) for _, v in its]))
    if kind == 'set' and not n: return
    comma = S.choice('comma', ['', ',' if n > 1 else ' , ']) if n else ''
    if kind == 'tuple' and n == 1: S.assume(comma != '')
    pad = S.choice('pad', ['', ' '])
    sep = (', ' if pad else S.choice('sep', [',', ' ,\t'])) if n > 1 else ','
    if kind == 'dict':
        body, want = sep.join([s + pad + ':' + pad + '%d' % i for i, (s, _) in enumerate(its)]), {v: i for i, (_, v) in enumerate(its)}
    else:
        body = sep.join([s for s, _ in its])
        vs = [v for _, v in its]
        want = vs if kind == 'list' else tuple(vs) if kind == 'tuple' else set(vs)
    a, b = {'list': '[]', 'tuple': '()', 'set': '{}', 'dict': '{}'}[kind]
    lit = a + pad + body + comma + pad + b
    got = []
    def rec(x):
        got.append(x)
        return ''
    s = ('context ' + ', '.join(['$' + k for k in ctx] + ['$rec']) + '\n') + '$r = ' + lit + '\n| { rec(' + lit + ') }\n| { rec( [ ' + lit + ' ][0] ) }\n'
    r = S.run(lambda: HyperHTML().translate(s, rec=rec, **ctx))
    S.check(r[0] == 'ok' and len(got) == 2, 'accepted', lambda: '%r %r' % (lit, r))
    for g in got + [r[1].symbols['$r']]:
        S.check(type(g) is type(want) and g == want, 'value', lambda: '%r gives %r, expected %r' % (lit, g, want))
        if kind == 'dict': S.check(list(g) == list(want), 'order', lambda: '%r %r' % (lit, g))
    if kind == 'list': S.check(got[0] is not got[1], 'a new collection every time')

@harness(quick=[{}], bounds='tuples without parentheses of one to three items, with and without trailing comma, in assignments, embeddings and indices')
def open_tuples(S):
    n = 1 + S.pick('n', 3)
    vs = [S.int('v%d' % i) for i in range(n)]
    comma = S.choice('comma', ['', ',', ' ,'])
    body = S.choice('sep', [',', ', ', ' , ']).join(['v%d' % i for i in range(n)]) + comma
    want = vs[0] if n == 1 and not comma else tuple(vs)
    got = []
    def rec(x):
        got.append(x)
        return ''
    class Ix(object):
        def __getitem__(self, i):
            got.append(i)
            return ''
    ctx = {'v%d' % i: vs[i] for i in range(n)}
    m = HyperHTML().translate('context ' + ', '.join(['$v%d' % i for i in range(n)] + ['$rec', '$ix']) + '\n$r = ' + body + '\n| {ix[' + body + ']}\n| {rec(r)}', rec=rec, ix=Ix(), **ctx)
    for g in got + [m.symbols['$r']]: S.check(type(g) is type(want) and g == want, 'value', lambda: '%r gives %r, expected %r' % (body, g, want))
    S.check(len(got) == 2, 'evaluated once')

@harness(quick=[{'n': 2}], bounds='two (thorough: three) strings, numbers and variables placed side by side', thorough=[{'n': 3}])
def concatenation(S, n):
    x = S.text('x', 1, VAL)
    y = S.int('y', 9, 10)
    want, parts = '', []
    for i in range(n):
        k = S.pick('k%d' % i, 6)
        c = S.char('c%d' % i, CH - RangeSet.of('${}\\\'"'))
        s, v = [("'" + c + "'", c), ('"' + c + '"', c), ("r'" + c + "'", c), ('x', x), ('y', str(y)), ('7', '7')][k]
        parts.append(s)
        want += v
    src = S.choice('sp', [' ', '  ', '\t']).join(parts)
    r = S.run(lambda: HyperHTML().translate('context $x, $y\n$r = ' + src, x=x, y=y).symbols['$r'])
    S.check(r[0] == 'ok' and r[1] == want, 'concatenation', lambda: '%r gives %r, expected %r' % (src, r, want))

@harness(quick=[{}], bounds='malformed literals: the script is rejected with the line')
def malformed(S):
    lit = S.choice('lit', ['"', "'", '"a', "'a\"", "r'", '[', '[1', '[1,,2]', '[,]', '(,)', '(1', '{1', '{,}', '{1:}', '{:1}', '{1:2,,}', '{1,,}', '1e', '0x1', '1_0', '1__', '1.2.3', '"$"', '"{"', '"}"', '"{}"', '"{1 +}"', "'''a'''x", '"a" "', "b'a'", "f'{1}'", '+1', '--1', '1 2 +', '(1 2', '()()(', '1..2', '.', '..', 'e5x y)'])
    pre = S.choice('pre', ['', '\n', '| a\n', 'p\n  b\n'])
    line = pre.count('\n') + 1
    r = S.run(render, pre + '$r = ' + lit + '\n| x')
    S.check(r[0] == 'err' and isinstance(r[1], SyntaxErrorEx) and 'line %d' % line in str(r[1]), 'rejected', lambda: '%r %r' % (lit, r))
