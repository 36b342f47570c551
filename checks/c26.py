from checks.common import *
from hypertag.core.runtime import Runtime, Loader, Module, PyLoader, HyLoader
from hypertag.core.errors import HError, ModuleNotFoundEx
from hypertag import TagFunction

ABC = RangeSet.of('abc')

class Dict(Loader):
    """Modules given in a dictionary {path: module or script}; everything asked for is recorded."""
    mods, log, name = {}, None, 'D'
    def _find(self, path, referrer):
        if self.log is not None: self.log.append((self.name, 'find', path))
        return path if path in self.mods or path[:1] == '?' else None
    def _read(self, location, runtime):
        if self.log is not None: self.log.append((self.name, 'read', location))
        m = self.mods.get(location)
        if isinstance(m, str): return runtime.translate(m, '/f/' + location, 'pkg.' + location)
        return m

def loader(mods, log=None, name='D'):
    l = Dict()
    l.mods, l.log, l.name = mods, log, name
    return l

def mod(**symbols): return Module(symbols={'$' + k: v for k, v in symbols.items()})

# An escape function that makes every application visible; it maps each character on its own, so it does not matter how the text is split
def once(t):
    return ''.join(['<%s>' % c if c in 'abc<>' else c for c in t])
def ref(t):
    out = ''
    for c in t: out = out + ('<' + c + '>' if c == 'a' or c == 'b' or c == 'c' or c == '<' or c == '>' else c)
    return out
def upto(t): return ''.join(['.' if c == 'a' else c for c in t])

def TAGS(): return {'F': TagFunction(lambda body, a='': '[' + body + '|' + a + ']'), 'M': TagFunction(lambda body: '(' + body + ')')}

# (script, output); T stands for the text {v}, E for its escaped form, a for a letter that is escaped in plain text
PLACES = [('| v{v}a', 'vE<a>'), ('/ v{v}a', 'vTa'), ('! v{v}a', 'v{v}a'), ('| v$v', 'vE'), ('|{v}', 'E'), ('F | {v}', '[E|]'), ('F {v} | a', '[<a>|T]'), ('F $v / $v', '[T|T]'), ('F "a$v" : M | {v}', '[(E)|aT]'),
          ('% H @q x\n  @q\n  | $x\nH $v | {v}', 'E\nE'), ('% H x\n  / $x\nH {v}', 'T'), ('% H x\n  | $x\n/ {%H(None, v)}', 'E'), ('% H x\n  | $x\n| {%H(None, v)}', 'EE'), ('% H x\n  | $x\nF {%H(None, v)}', '[|E]'),
          ('if v | {v}', 'E'), ('if 0 | a\nelse / {v}', 'T'), ('for i in [v, v] | $i', 'E+E'), ('for i in [v, v]\n  | $i', 'E\nE'), ('try | {1/0}\nelse | {v}', 'E'), ('$ x = v\n| $x', 'E'), ('$ x = "{v}"\n| {x}{x}', 'EE'), ('| {"a"}{v}', '<a>E'),
          ('F\n  | {v}', '[\n  E|]'), ('F\n  | {v}\n    a', '[\n  E\n  <a>|]'), ('from m import %G\nG {v}', 'E'), ('from m import %G2\nG2 | {v}', 'E'), ('from m import $t\n/ $t', 'a'), ('from m import $t\n| $t$v', '<a>E'),
          ('. | {v}', 'E'), ('-- a\n| {v}', 'E'), ('| {v}?', 'E'), ('| {v}!', 'E'), ('% H @q\n  @ q\nH | {v}', 'E'), ('% H @q\n  @ q\nH / {v}', 'T'), 
          ('F : M / <a>', '[(<a>)|]'), ('/ {v} | {v}', 'T | T'), ('/ a', 'a')]
M = '$ t = "a"\n% G x\n  | $x\n% G2 @q\n  @q\n'

@harness(quick=[{'k': k} for k in range(0, len(PLACES), 10)], thorough=[{'k': k, 'n': 2} for k in range(0, len(PLACES), 5)],
         bounds='an escape function that shows how often it is applied to each character, none, or one that is given to a subclass; 38 places of text and values, values of one (thorough: two) characters; the same in modules')
def escaping(S, k, n=1):
    s, want = S.choice('place', PLACES[k:k + (10 if n == 1 else 5)])
    esc_ = S.choice('escape', ['once', 'none', 'upto', 'sub'])
    v = S.text('v', n, VAL - NL - WS)
    S.assume(all([not c.isspace() for c in v]))
    class R(Runtime):
        BUILTINS = ['x']
        escape = {'once': staticmethod(once), 'none': None, 'upto': staticmethod(upto), 'sub': staticmethod(upto)}[esc_]
    class Q(R): escape = staticmethod(once)
    e = {'once': ref, 'sub': ref, 'none': lambda t: t, 'upto': upto}[esc_]
    rt = (Q if esc_ == 'sub' else R)(loaders=[loader({'m': M, 'x': mod()})])
    r = S.run(rt.render, 'context $v, %F, %M\n' + s + '\n', v=v, __tags__=TAGS())
    if s[:14] == 'F : M / <a>': w = want
    else:
        w = want.replace('<a>', e('a'))
        w = w.replace('EE', e(e(v)) if '{%H' in s else e(v) + e(v)).replace('E+E', 'EE').replace('E', e(v)).replace('T', v)
    got = '\n'.join([l for l in r[1].split('\n') if l]) if r[0] == 'ok' else repr(r)
    S.check(got == w, 'escaped once, in plain text only', lambda: '\n%s\n%s, v=%r\ngot      %r\nexpected %r' % (s, esc_, v, got, w))

@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='two (thorough: three) modules of built-in symbols with two symbolic names each, in a runtime or a subclass with a longer list; a symbolic name used in the script, in a module or in a hypertag; with and without a declaration that shadows it')
def builtins(S, n):
    names = [[S.text('n%d%d' % (i, j), 1, ABC) for j in ((0, 1) if i else (0,))] for i in range(n)]
    sub = S.flag('sub')
    shadow = S.choice('shadow', ['none', 'context', 'local', 'import', 'block'])
    use, other = S.text('use', 1, ABC), 'a'
    mods = {'m%d' % i: Module(symbols=dict([('$' + x, '%d%d' % (i, j)) for j, x in enumerate(ns)])) for i, ns in enumerate(names)}
    mods['im'] = mod(a='imp')
    class R(Runtime):
        escape = staticmethod(lambda t: t)
        BUILTINS = ['m0'] if sub else ['m%d' % i for i in range(n)]
    class Q(R):
        BUILTINS = R.BUILTINS + ['m%d' % i for i in range(1, n)]
    log = []
    rt = (Q if sub else R)([loader(mods, log)])
    scope = {}
    for i, ns in enumerate(names):
        for j, x in enumerate(ns): scope[x] = '%d%d' % (i, j)
    s = {'none': '', 'context': 'context $a\n', 'local': '$ a = "loc"\n', 'import': 'from im import $a\n', 'block': 'p_ = 0\n'}[shadow]
    tag = S.flag('tag')
    if shadow == 'block': s = '.\n  $ a = "in"\n'
    body = '% H\n  / $' + use + '\nH\n' if tag else '/ $' + use + '\n'
    r = S.run(rt.render, s + body, **({'a': 'ctx'} if shadow == 'context' else {}))
    if shadow in ('context', 'local', 'import'): scope['a'] = {'context': 'ctx', 'local': 'loc', 'import': 'imp'}[shadow]
    if use in scope: S.check(r[0] == 'ok' and r[1].strip() == scope[use], 'built-in symbol', lambda: '\n%s%r expected %r' % (s + body, r, scope))
    else: S.check(r[0] == 'err' and isinstance(r[1], HError), 'undefined symbol', lambda: '\n%s%r' % (s + body, r))
    # the built-in symbols are the same the next time, whatever the first script declared; nothing is read twice
    r = S.run(rt.render, '/ $' + use + '\n')
    scope = {}
    for i, ns in enumerate(names):
        for j, x in enumerate(ns): scope[x] = '%d%d' % (i, j)
    S.check((r[0] == 'ok' and r[1].strip() == scope[use]) if use in scope else r[0] == 'err', 'built-in symbol in the next script', lambda: '\n%s%r expected %r' % (s, r, scope))
    reads = [x[2] for x in log if x[1] == 'read']
    S.check(len(reads) == len(set(reads)), 'modules read once', lambda: '%r' % (log,))

@harness(quick=[{}], thorough=[{'n': 3}], bounds='two (thorough: three) loaders, instances or classes, each of which has or lacks each of two modules, or finds but cannot read it; two imports of symbolic paths: loaders are asked in order, the first one that has the module gives it, each reads it once')
def loaders(S, n=2):
    log, has, ls = [], [], []
    for i in range(n):
        mods = {}
        for m in 'xy':
            if S.flag('h%d%s' % (i, m)): mods[m] = mod(v=m + str(i), w='W')
        has.append(mods)
        if S.flag('c%d' % i):
            class C(Dict): pass
            C.mods, C.log, C.name = mods, log, i
            ls.append(C)
        else: ls.append(loader(mods, log, i))
    base = loader({'x': mod(v='B', q='Q')}, None)
    class R(Runtime): BUILTINS = []
    rt = R(loaders=ls)
    S.check(len(rt.loaders) == n and all([isinstance(l, Loader) for l in rt.loaders]) and all([a is b for a, b in zip(rt.loaders, ls) if isinstance(b, Loader)]), 'loaders', lambda: '%r' % rt.loaders)
    p, q = S.text('p', 1, RangeSet.of('xyz')), S.text('q', 1, RangeSet.of('xyz'))
    s = 'from ' + p + ' import $v\nfrom ' + q + ' import $v as u\n/ $v$u\n'
    r = S.run(rt.render, s)
    def find(m): return ([i for i in range(n) if m in has[i]] + [None])[0]
    want = [find(p), find(q)]
    if None in want: S.check(r[0] == 'err' and isinstance(r[1], ModuleNotFoundEx), 'module not found', lambda: '%s %r %r' % (s, has, r))
    else: S.check(r == ('ok', '\n\n' + p + str(want[0]) + q + str(want[1]) + '\n') or r[1].strip() == p + str(want[0]) + q + str(want[1]), 'the first loader that has it', lambda: '%s %r %r' % (s, has, r))
    asked = []
    for m, w in zip([p, q], want):
        asked += [(i, 'find', m) for i in range(n if w is None else w + 1)]
        if w is None: break
    S.check([x for x in log if x[1] == 'find'] == asked, 'order of the loaders', lambda: '%r expected %r' % (log, asked))
    reads = [x for x in log if x[1] == 'read']
    S.check(len(reads) == len(set(reads)), 'read once', lambda: '%r' % (log,))
    # the same again: the answers are the same, and no module is read once more
    del log[:]
    r2 = S.run(rt.render, s)
    S.check(r2[0] == r[0] and (r[0] == 'err' or r2[1] == r[1]), 'the next script', lambda: '%r %r' % (r, r2))
    S.check(not [x for x in log if x[1] == 'read' and x in reads], 'not read again', lambda: '%r' % (log,))

@harness(quick=[{}], bounds='scripts with symbolic __file__ and __package__ (given or not) and modules with their own: each sees its own; a runtime with default loaders is given none of those of another')
def where(S):
    f = S.text('f', 2, UPPER) if S.flag('file') else None
    p = S.text('p', 2, UPPER) if S.flag('pack') else None
    class R(Runtime): BUILTINS = S.choice('builtins', [[], ['own'], ['math']])
    mods = {'own': Module(symbols={'$__file__': '/x/own', '$__package__': 'own', '$__name__': 'own'}), 'm': '$ f = __file__\n$ p = __package__\n% G\n  / $__file__ $__package__\nfrom k import $f as kf\n', 'k': '$ f = __file__\n'}
    s = 'from m import %G, $f, $p, $kf\nfrom k import $f as g\n/ {__file__ is None}\n/ {__file__ or "-"} {__package__ or "-"}\nG\n/ $f $p $kf $g\n/ {__file__ or "-"} {__package__ or "-"}\n'
    r = S.run(R([loader(mods), PyLoader]).render, s, f, p)
    me = (f or '-') + ' ' + (p or '-')
    want = [str(f is None), me, '/f/m pkg.m', '/f/m pkg.m /f/k /f/k', me]
    S.check(r[0] == 'ok' and [l for l in r[1].split('\n') if l] == want, 'own file and package', lambda: '%r expected %r' % (r, want))
    r = S.run(HyperHTML().render, '/ {__file__ is None} {__package__ is None} {__file__ or "-"} {__package__ or "-"}', f, p)
    S.check(r == ('ok', '%s %s %s' % (f is None, p is None, me)), 'own file and package of HyperHTML', lambda: '%r' % (r,))
    a, b = R(), R()
    S.check([type(l) for l in a.loaders] == [HyLoader, PyLoader] and all([x is not y for x, y in zip(a.loaders, b.loaders)]), 'default loaders', lambda: '%r' % a.loaders)
    S.check(all([l.cache == {} for l in R().loaders]), 'nothing shared', '')
