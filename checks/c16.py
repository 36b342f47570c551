from checks.common import *
from hypertag.builtins import unique, merge, inline, dedent, lower, upper, crop, truncate, doctype

# ---- references

def ref_unique(t, strip=True):
    out = []
    for l in t.splitlines():
        if strip:
            l = l.strip()
            if not l: continue
        if not any([l == o for o in out]): out.append(l)
    return '\n'.join(out)

def ref_merge(t): return ' '.join(t.split())

def ref_inline(t): return ''.join(['&#10;' if c == '\n' else c for c in t])

def blank(l): return not l.strip()

def check_dedent(S, t, r):
    want = [l.lstrip() for l in t.split('\n') if not blank(l)]
    got = r.split('\n')
    S.check([l for l in got if not blank(l)] == want, 'all indentation removed', lambda: '%r -> %r' % (t, r))
    S.check(not any([l != '' and l[0].isspace() for l in got]), 'no line begins with whitespace', lambda: '%r -> %r' % (t, r))

def check_dedent_common(S, t, r):
    lines = t.split('\n')
    full = [l for l in lines if not blank(l)]
    n = 0
    if full:
        while True:
            c = full[0][n]
            if not c.isspace() or not all([n < len(l) and l[n] == c for l in full]): break
            n += 1
    got = r.split('\n')
    S.check(len(got) == len(lines), 'number of lines', lambda: '%r -> %r' % (t, r))
    for a, b in zip(lines, got):
        if blank(a): S.check(blank(b) and len(b) <= len(a), 'blank line', lambda: '%r -> %r' % (t, r))
        else: S.check(b == a[n:], 'common indentation removed', lambda: '%r -> %r' % (t, r))

LINES = RangeSet.of(' \t\nab')
# whitespace to regular expressions but not to str.strip() of the interpreter, or the other way round
UNCLEAR = RangeSet.of('\x1c\x1d\x1e\x1f\u180e')
TEXT = VAL - UNCLEAR
# characters whose case is mapped by upper() and lower(), four of them to several characters (all of Unicode is covered for texts of one character)
CASE = RangeSet([(0, 0x17F), (0x1C4, 0x233), (0x370, 0x3FF), (0x10400, 0x1044F)])

@harness(quick=[{'n': n} for n in (0, 1, 2, 3)], thorough=[{'n': 4}, {'n': 5}], bounds='all Unicode texts of up to three (thorough: five) characters; unique (with and without strip), merge, inline, lower, upper', outside='longer texts over the whole of Unicode; the separators U+001C to U+001F and U+180E, which are whitespace to re but not to str.strip() of the interpreter (or conversely), in unique, merge and dedent')
def simple(S, n):
    which = S.pick('f', 6)
    t = S.text('t', n, TEXT if which < 3 else VAL if which == 3 or n < 2 else CASE)
    if which == 0: S.eq(unique(t), ref_unique(t), 'unique')
    elif which == 1: S.eq(unique(t, strip=False), ref_unique(t, False), 'unique(strip=False)')
    elif which == 2: S.eq(merge(t), ref_merge(t), 'merge')
    elif which == 3: S.eq(inline(t), ref_inline(t), 'inline')
    elif which == 4: S.eq(lower(t), t.lower(), 'lower')
    elif which == 5: S.eq(upper(t), t.upper(), 'upper')

@harness(quick=[{'n': n} for n in (0, 1, 2, 3)], thorough=[{'n': 4}], bounds='all Unicode texts of up to three (thorough: four) characters; dedent with full=True and full=False')
def dedents(S, n):
    t = S.text('t', n, TEXT)
    if S.flag('full'): check_dedent(S, t, dedent(t))
    else: check_dedent_common(S, t, dedent(t, full=False))

@harness(quick=[{'n': 5, 'f': 'dedent'}, {'n': 5, 'f': 'common'}, {'n': 6, 'f': 'unique'}, {'n': 6, 'f': 'merge'}, {'n': 6, 'f': 'raw'}], thorough=[{'n': 6, 'f': 'dedent'}, {'n': 7, 'f': 'common'}, {'n': 7, 'f': 'unique'}, {'n': 8, 'f': 'merge'}],
         bounds='texts of five or six (thorough: up to eight) characters among space, tab, line feed, a and b')
def lines(S, n, f):
    t = S.text('t', n, LINES)
    if f == 'dedent': check_dedent(S, t, dedent(t))
    elif f == 'common': check_dedent_common(S, t, dedent(t, False))
    elif f == 'unique': S.eq(unique(t), ref_unique(t), 'unique')
    elif f == 'raw': S.eq(unique(t, False), ref_unique(t, False), 'unique(strip=False)')
    elif f == 'merge': S.eq(merge(t), ref_merge(t), 'merge')

@harness(quick=[{'k': 3, 'm': 2}, {'k': 4, 'm': 1}], thorough=[{'k': 3, 'm': 3}, {'k': 5, 'm': 2}], bounds='up to four (thorough: five) lines with up to two (three) whitespace characters of indentation and a symbolic character each')
def indented(S, k, m):
    t = '\n'.join([S.string('i%d' % i, m, RangeSet.of(' \t')) + S.string('c%d' % i, 1, RangeSet.of('xy')) for i in range(k)])
    which = S.pick('which', 3)
    if which == 0: check_dedent(S, t, dedent(t))
    elif which == 1: check_dedent_common(S, t, dedent(t, full=False))
    else: S.eq(unique(t), ref_unique(t), 'unique')

def check_crop(S, t, length, end, killwords, maxdrop, leeway, r):
    d = lambda: '%r length=%r end=%r killwords=%r maxdrop=%r leeway=%r -> %r' % (t, length, end, killwords, maxdrop, leeway, r)
    if len(t) <= length + leeway:
        S.check(r == t, 'a text that fits is unchanged', d)
        return
    S.check(len(r) <= length, 'not longer than the limit', d)
    S.check(r.endswith(end), 'end mark', d)
    p = r[:len(r) - len(end)]
    S.check(t.startswith(p), 'a prefix of the text', d)
    m = length - len(end)
    if killwords:
        S.check(len(p) == m, 'cut at the limit', d)
        return
    S.check(len(p) == m or (t[len(p)] == ' ' and m - len(p) <= maxdrop), 'cut at a word boundary', d)
    # the last word is dropped, unless that drops more than maxdrop characters
    last = None
    for i in range(m):
        if t[i] == ' ': last = i
    if last is not None and m - last <= maxdrop: S.check(len(p) == last, 'the last word is dropped', d)
    else: S.check(len(p) == m, 'the last word is split', d)

@harness(quick=[{'n': 3}, {'n': 5}], thorough=[{'n': 7}, {'n': 8}], bounds='texts of up to five (thorough: eight) Unicode characters; length, maxdrop and leeway symbolic integers without bound; end marks of up to three characters; killwords on and off', outside='longer texts')
def crops(S, n):
    t = S.text('t', n, VAL)
    end = S.choice('end', ['', '.', '...', ' '])
    killwords = S.flag('kill')
    length, maxdrop, leeway = S.int('length'), S.int('maxdrop'), S.int('leeway')
    S.assume(length >= len(end))
    S.assume(maxdrop >= 0)
    S.assume(leeway >= 0)
    f = truncate if S.flag('alias') else crop
    r = f(t, length, end, killwords, maxdrop, leeway)
    check_crop(S, t, length, end, killwords, maxdrop, leeway, r)

@harness(quick=[{'n': 12}, {'n': 16}], thorough=[{'n': 20}], bounds='default parameters of crop: texts of 12 and 16 (thorough: 20) characters with one or two spaces at symbolic places, all limits, and parameters given by name')
def crop_defaults(S, n):
    i, two = S.pick('i', n), S.flag('two')
    t = 'x' * i + ' ' + 'y' * (n - i - 1)
    if two: t = t[:n // 2] + ' ' + t[n // 2 + 1:]
    length = 3 + S.pick('length', n - 2)
    check_crop(S, t, length, '...', False, 10, 0, crop(t, length))
    check_crop(S, t, length, '#', False, 2, 1, crop(t, length, leeway=1, maxdrop=2, end='#'))

@harness(quick=[{}], bounds='the default limit of 255 characters: texts of 250 to 260 characters whose last 20 contain a space at a symbolic place')
def crop_255(S):
    n, k = 250 + S.pick('n', 11), S.pick('k', 20)
    t = 'x' * (n - 20) + 'y' * k + ' ' + 'z' * (19 - k)
    check_crop(S, t, 255, '...', False, 10, 0, crop(t))
    S.eq(render_ctx('/ {t : crop}', t=t), crop(t), 'filter')

@harness(quick=[{'n': 1}, {'n': 2}], thorough=[{'n': 3}], bounds='a symbolic text of one or two (thorough: three) Unicode characters: the tag, the function and the filter give the same result, at the top level and in a built-in import', outside='longer texts')
def forms(S, n):
    name, f, args = S.choice('f', [('unique', unique, ''), ('unique', lambda x: unique(x, strip=False), 'strip=False'), ('merge', merge, ''), ('inline', inline, ''), ('lower', lower, ''), ('upper', upper, ''), ('dedent', dedent, ''), ('dedent', lambda x: dedent(x, full=False), 'full=False')])
    t = S.text('t', n, CASE if name in ('upper', 'lower') else TEXT)
    want = f(t)
    imp = 'from hypertag.builtins import %%%s, $%s\n' % (name, name) if S.flag('import') else ''
    S.eq(render_ctx(imp + '/ {%s(t%s)}' % (name, ', ' + args if args else ''), t=t), want, 'function')
    S.eq(render_ctx(imp + '/ {t : %s%s}' % (name, '(%s)' % args if args else ''), t=t), want, 'filter')
    S.eq(render_ctx(imp + '%s %s / {t}' % (name, args), t=t), want, 'tag')
    S.eq(render_ctx(imp + '%s {%s} / {t}' % (name, args.split('=')[1] if args else ''), t=t) if args else want, want, 'positional attribute')

BODIES = ['/ {t}', 'p / {t}\n  /\n   b  b\n  p / {t}', '/ {t}\n     {t}\n    {t}', 'p .A title={t} / X', 'div\n    p\n      / {t}\n    / {t}\n  / {t}', '/ x\n  / x\n  / {t}', ': / {t}'.replace(': ', '.\n    ')]
@harness(quick=[{'b': b} for b in range(len(BODIES))], bounds='outline and mixed bodies of the filter tags with symbolic text: the result is the function of the rendered body, placed where the tag stands', outside='other bodies')
def tag_bodies(S, b):
    name, f = S.choice('f', [('unique', unique), ('merge', merge), ('inline', inline), ('lower', lower), ('upper', upper), ('dedent', dedent), ('dedent full=False', lambda x: dedent(x, False))])
    t = S.char('t.0', CASE if name in ('upper', 'lower') else TEXT) + S.choice('tail', ['', ' x', '\n x'])
    from hypertag import TagFunction
    seen = []
    def same(x):
        seen.append(x)
        return x
    pre = S.choice('where', ['', '| q\n'])
    body = BODIES[b]
    script = pre + '%s\n  ' + body + '\n| z'
    plain = render('context $t, %same\n' + script % 'same', t=t, __tags__={'same': TagFunction(same)})
    S.check(len(seen) == 1, 'body rendered once')
    got = render_ctx(script % name, t=t)
    want = plain[:len(plain) - 2]
    want = ('q\n' if pre else '') + f(want[len('q\n') if pre else 0:]) + '\nz'
    S.check(got == want, 'function of the rendered body', lambda: '%r -> %r expected %r' % (script % name, got, want))

@harness(quick=[{}], bounds='doctype, names of the built-ins, chains of filters on a symbolic text')
def chains(S):
    t = S.text('t', 2, TEXT)
    c = S.pick('c', 6)
    if c == 0: S.eq(render_ctx('/ {t : lower : merge}', t=t), ref_merge(t.lower()), 'chain')
    elif c == 1: S.eq(render_ctx('merge : lower / {t}', t=t), ref_merge(t.lower()), 'chain of tags')
    elif c == 2: S.eq(render_ctx('/ {t : crop(1, "", True) : upper}', t=t), t[:1].upper(), 'chain')
    elif c == 3: S.eq(render_ctx('/ {t : inline : unique}', t=t), ref_unique(ref_inline(t)), 'chain')
    elif c == 4: S.eq(render('doctype'), '<!DOCTYPE html>', 'doctype')
    else:
        v = S.text('v', 2, LOWER)
        S.eq(render('doctype "' + v + '"\np'), '<!DOCTYPE ' + v + '>\n<p></p>', 'doctype')
