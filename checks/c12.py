import os, sys, shutil, tempfile
from checks.common import *
from hypertag import Tag, TagFunction
from hypertag.core.errors import HError, ImportErrorEx
from hypertag.core.runtime import Loader, HyLoader, PyLoader

class Mem(Loader):
    """Custom loader: scripts from a dict."""
    def __init__(self, files):
        Loader.__init__(self)
        self.files, self.log = files, []
    def load(self, path, referrer, runtime):
        if path not in self.files: return None
        if path not in self.cache:
            self.log.append(path)
            m = self.cache[path] = runtime.translate(self.files[path], None, None)
            m.location = path
        return self.cache[path]

def mem(files, script, **ctx):
    return HyperHTML([Mem(files), HyLoader, PyLoader]).render(script, **ctx)

class Box(object):
    """A scratch folder with a current folder, the folder of the importing script and a folder of Python packages."""
    def __init__(self):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='hyc12'))
        self.u = os.path.basename(self.root)
        self.old = os.getcwd()
        for d in ('cwd', 'site', 'lib', 'ref/x/y'): os.makedirs(os.path.join(self.root, d))
        os.chdir(os.path.join(self.root, 'cwd'))
        sys.path.append(os.path.join(self.root, 'site'))
    def put(self, path, text):
        path = os.path.join(self.root, path)
        if not os.path.isdir(os.path.dirname(path)): os.makedirs(os.path.dirname(path))
        with open(path, 'w') as f: f.write(text)
        return path
    def path(self, path): return os.path.join(self.root, path)
    def close(self):
        os.chdir(self.old)
        sys.path.remove(os.path.join(self.root, 'site'))
        for k in [k for k in sys.modules if self.u in k]: del sys.modules[k]
        for k in [k for k in sys.path_importer_cache if self.u in k]: del sys.path_importer_cache[k]
        if self.u.startswith('hyc12') and self.root.endswith(self.u): shutil.rmtree(self.root, ignore_errors=True)

def where(S, r): return r[1].strip() if r[0] == 'ok' else r[1].__class__.__name__

@harness(quick=[{'form': f} for f in ('plain', 'package', 'namespace', 'folder', 'deep')],
         bounds='absolute paths of one to three names; every combination of presence of the script at the location given by resolve() (which may be absent, give nothing, or name a missing file), in the Python package, the current folder and the importing folder, and of a Python module; package with or without __init__')
def absolute(S, form):
    box = Box()
    try:
        name = box.u + 'm'
        pkg = {'plain': [], 'package': [box.u + 'p'], 'namespace': [box.u + 'p'], 'folder': [box.u + 'p'], 'deep': [box.u + 'p', 'q']}[form]
        sub = '/'.join(pkg + [name])
        path = '.'.join(pkg + [name])
        res = S.choice('resolve', ['none', 'nothing', 'missing', 'file'])
        have = {k: S.flag(k) for k in ('P', 'C', 'F', 'Y')}
        if form == 'folder': S.assume(not have['P'] and not have['Y'])
        if form == 'plain': S.assume(not have['P'])
        main = box.path('ref/main.hy')
        if form in ('package', 'deep', 'namespace'):
            d = 'site'
            for x in pkg:
                d += '/' + x
                if not os.path.isdir(box.path(d)): os.makedirs(box.path(d))
                if form != 'namespace': box.put(d + '/__init__.py', '')
        if have['P']: box.put('site/' + sub + '.hy', '$v="P"\n% h | P\n')
        if have['C']: box.put('cwd/' + sub + '.hy', '$v="C"\n% h | C\n')
        if have['F']: box.put('ref/' + sub + '.hy', '$v="F"\n% h | F\n')
        if have['Y']: box.put('site/' + sub + '.py', 'v = "Y"\nfrom hypertag import TagFunction\ndef h(body): return "Y"\n__tags__ = {"h": TagFunction(h)}\n')
        lib = box.put('lib/other.hy', '$v="R"\n% h | R\n') if res == 'file' else box.path('lib/none.hy')
        calls = []
        def resolve(p, referrer):
            if p != path: return None
            calls.append(p)
            return None if res == 'nothing' else lib
        import importlib
        importlib.invalidate_caches()
        loaders = [HyLoader(resolve) if res != 'none' else HyLoader, PyLoader]
        order = ['P'] if form in ('package', 'deep') else []
        order = order + ['C', 'F', 'Y']
        want = 'R' if res == 'file' else ([k for k in order if have[k]] + ['ModuleNotFoundEx'])[0]
        rt = HyperHTML(loaders)
        r = S.run(rt.render, 'from %s import $v, %%h\n| $v\nh\n' % path, __file__=main)
        got = where(S, r)
        S.check(got == (want + '\n' + want if len(want) == 1 else want), 'the module found', lambda: '%s %r %s: got %r expected %r' % (form, have, res, got, want))
        S.check(res == 'none' or len(calls) >= 1, 'resolve is asked', '')
        if len(want) == 1:
            r = S.run(rt.render, 'from %s import *\nfrom %s import $v as w\n| $v $w\nh\n' % (path, path), __file__=main)
            S.check(where(S, r) == want + ' ' + want + '\n' + want, 'again', lambda: '%s %r %s: %r' % (form, have, res, r))
        elif r[0] == 'err': S.check(isinstance(r[1], ImportErrorEx) or isinstance(r[1], ImportError), 'an import error', lambda: '%r' % (r,))
    finally: box.close()

@harness(quick=[{}], bounds='without a file of the importing script: only resolve(), packages, the current folder and Python modules')
def no_file(S):
    box = Box()
    try:
        name = box.u + 'm'
        have = {k: S.flag(k) for k in ('C', 'Y')}
        if have['C']: box.put('cwd/' + name + '.hy', '$v="C"\n')
        if have['Y']: box.put('site/' + name + '.py', 'v = "Y"\n')
        box.put('ref/' + name + '.hy', '$v="F"\n')
        import importlib
        importlib.invalidate_caches()
        want = ([k for k in ('C', 'Y') if have[k]] + ['ModuleNotFoundEx'])[0]
        r = S.run(render, 'from %s import $v\n| $v\n' % name)
        S.check(where(S, r) == want, 'the module found', lambda: '%r %r' % (have, r))
        r = S.run(render, 'from .%s import $v\n| $v\n' % name)
        S.check(r[0] == 'err', 'relative import needs a folder', lambda: '%r' % (r,))
    finally: box.close()

RELATIVE = [('.m', 'ref/x/y/m'), ('..m', 'ref/x/m'), ('...m', 'ref/m'), ('.d.m', 'ref/x/y/d/m'), ('..y.m', 'ref/x/y/m'), ('...x.d.m', 'ref/x/d/m'), ('....ref.m', 'ref/m')]
@harness(quick=[{}], bounds='seven relative paths of up to three levels up and two down; script present or not; decoys of the same name in the current folder, on the Python path and in the other folders; one further relative import from the imported script')
def relative(S):
    box = Box()
    try:
        path, target = S.choice('path', RELATIVE)
        present, inner = S.flag('present'), S.choice('inner', [None] + RELATIVE[:5])
        import importlib
        for _, t in RELATIVE:
            if t != target: box.put(t + '.hy', '$v="decoy"\n% h | decoy\n')
        box.put('cwd/m.hy', '$v="cwd"\n% h | cwd\n')
        box.put('site/m.py', 'v = "py"\n')
        base = os.path.dirname(target)
        want2 = None
        if inner:
            ups = len(inner[0]) - len(inner[0].lstrip('.')) - 1
            d = base
            S.assume(ups <= len(base.split('/')))
            for _ in range(ups): d = os.path.dirname(d)
            rest = inner[0].lstrip('.').replace('.', '/').replace('m', 'n')
            box.put((d + '/' if d else '') + rest + '.hy', '$v="inner"\n')
            box.put('cwd/' + rest + '.hy', '$v="wrong"\n')
        if present: box.put(target + '.hy', ('from %s import $v as w\n' % inner[0].replace('m', 'n') if inner else '$w = "-"\n') + '$v="M"\n% h | T $w\n')
        s = 'from %s import $v, $w, %%h as g\n| $v $w\ng\n' % path
        r = S.run(render, s, __file__=box.path('ref/x/y/main.hy'))
        if present: S.check(r[0] == 'ok' and r[1] == ('M inner\nT inner\n' if inner else 'M -\nT -\n'), 'relative import', lambda: '%s %r %r' % (path, inner, r))
        else: S.check(r[0] == 'err' and isinstance(r[1], ImportError), 'missing', lambda: '%s %r' % (path, r))
    finally: box.close()

@harness(quick=[{}], bounds='one script reached through up to three different paths from two scripts: one module')
def same_module(S):
    box = Box()
    try:
        box.put('ref/x/m.hy', '$L = [0]\n% h | $len(L)\n')
        box.put('ref/x/k.hy', 'from %s import $L\n$ L.append("k")\n' % S.choice('k', ['.m', '..x.m', 'm']))
        a, b = S.choice('a', ['.x.m', 'x.m', '..ref.x.m']), S.choice('b', ['.x.m', 'x.m'])
        use = S.flag('use')
        s = 'from %s import $L, %%h\nfrom %s import $L as M\n' % (a, b) + ('from .x.k import *\n' if use else '') + '$ M.append("s")\n| $len(L) $len(M)\nh\n'
        r = S.run(render, s, __file__=box.path('ref/main.hy'))
        n = 3 if use else 2
        S.check(r[0] == 'ok' and r[1] == '%d %d\n%d\n' % (n, n, n), 'one module', lambda: '\n%s%r' % (s, r))
        rt = HyperHTML()
        r = [S.run(rt.render, s, __file__=box.path('ref/main.hy')) for _ in range(2)]
        S.check(r[0][0] == 'ok' and r[1][0] == 'ok', 'rendering twice', lambda: '%r' % (r,))
    finally: box.close()

@harness(quick=[{'n': 2}], thorough=[{'n': 3}], bounds='two (thorough: three) scripts rendered by one instance: in any of three folders, of the same or different packages, importing by any of four paths, from modules that import further ones: each gets the module of its own folder')
def referrers(S, n):
    box = Box()
    try:
        for d in ('p', 'q', 'p/s'):
            box.put('ref/%s/m.hy' % d, 'from .k import $k\n$v = "%s" + k\n' % d)
            box.put('ref/%s/k.hy' % d, '$k = "k%s"\n' % d)
            box.put('ref/%s/t/m.hy' % d, 'from ..k import $k\n$v = "t%s" + k\n' % d)
        rt = HyperHTML(); hist = []
        for i in range(n):
            d = S.choice('d%d' % i, ['p', 'q', 'p/s'])
            path = S.choice('path%d' % i, ['.m', 'm', '.t.m', 't.m'])
            pkg = S.choice('pkg%d' % i, [None, 'pkg', 'pkg.x'])
            r = S.run(rt.render, 'from %s import $v\n| $v\n' % path, __file__=box.path('ref/%s/main.hy' % d), **({'__package__': pkg} if pkg else {}))
            hist.append((d, path, pkg))
            want = ('t' if 't' in path else '') + d + 'k' + d + '\n'
            S.check(r[0] == 'ok' and r[1] == want, 'module of the own folder', lambda: '%r got %r expected %r' % (hist, r, want))
    finally: box.close()

NM = RangeSet.of('abc')
def NamedTag(f, name):
    f.__name__ = name
    return TagFunction(f)
def names(S, *ns): return [S.text(n, 1, NM) for n in ns]

@harness(quick=[{'py': p, 'x': x} for p in (False, True) for x in (False, True)], bounds='three exported symbols (variables and tags; a script or a Python module) and three imported ones, all names symbolic over three letters (every aliasing), renamed or not')
def named(S, py, x):
    e1, e2 = names(S, 'e1', 'e2') if not py else ('a', 'c')
    et = S.text('et', 1, NM) if not py else 'b'
    S.assume(e1 != e2)
    if py:
        class M(object): pass
        class Py(Loader):
            def load(self, path, referrer, runtime):
                from hypertag.core.runtime import PyModule
                if path != 'mod': return None
                m = M()
                setattr(m, 'q', None)
                d = {e1: 'one', e2: 'two', '__tags__': {et: NamedTag(lambda body: 'tag' + body, et)}}
                m.__dict__.update(d)
                return PyModule(m)
        loaders = [Py(), HyLoader, PyLoader]
    else: loaders = [Mem({'mod': '$%s = "one"\n$%s = "two"\n%% %s @b\n  | tag\n  @b\n' % (e1, e2, et)}), HyLoader, PyLoader]
    i1, i2, it = names(S, 'i1', 'i2', 'it')
    r1, r2, rt_ = [S.text('r%d' % k, 1, RangeSet.of('ab')) if x else None for k in range(3)]
    as_ = lambda r: ' as ' + r if r is not None else ''
    v1, v2, vt = S.text('v1', 1, RangeSet.of('ab')), 'q', 'z'
    s = 'from mod import $%s%s, %%%s%s\nfrom mod import $%s%s   # comment\n' % (i1, as_(r1), it, as_(rt_), i2, as_(r2)) + '| $%s\n%s\n' % (v1, rt_ if rt_ is not None else it)
    r = S.run(HyperHTML(loaders).render, s)
    val = lambda n: 'one' if n == e1 else 'two' if n == e2 else None
    missing = val(i1) is None or val(i2) is None or it != et
    scope = {}
    scope[r1 if r1 is not None else i1] = val(i1)
    scope[r2 if r2 is not None else i2] = val(i2)
    if missing: S.check(r[0] == 'err' and isinstance(r[1], ImportErrorEx), 'missing symbol', lambda: '\n%s%r' % (s, r))
    elif v1 not in scope: S.check(r[0] == 'err' and isinstance(r[1], HError), 'name not imported', lambda: '\n%s%r' % (s, r))
    else: S.check(r[0] == 'ok' and r[1] == scope[v1] + '\ntag\n', 'imported values', lambda: '\n%s%r expected %r' % (s, r, scope))

@harness(quick=[{}], bounds='wildcard: three exports with symbolic names of which some begin with an underscore; local declarations before or after with symbolic names')
def wildcard(S):
    first = RangeSet.of('ab_')
    e = [S.char('e%d' % i, first) + 'x' for i in range(2)]
    t = S.char('t', first) + 'x'
    S.assume(e[0] != e[1])
    private = lambda n: n[0] == '_'
    u = S.char('u', first) + 'x'
    where = S.choice('where', ['before', 'after', 'none'])
    local = '$%s = "mine"\n' % u
    s = (local if where == 'before' else '') + 'from mod import *\n' + (local if where == 'after' else '') + '| $%s\n' % u
    r = S.run(mem, {'mod': '$%s = "0"\n$%s = "1"\n%% %s | tag\n' % (e[0], e[1], t)}, s)
    vals = {}
    if where == 'before': vals[u] = 'mine'
    for i in range(2):
        if not private(e[i]): vals[e[i]] = str(i)
    if where == 'after': vals[u] = 'mine'
    if u in vals: S.check(r[0] == 'ok' and r[1] == vals[u] + '\n', 'wildcard import', lambda: '\n%s%r %r' % (s, r, vals))
    else: S.check(r[0] == 'err' and isinstance(r[1], HError), 'name not imported', lambda: '\n%s%r %r' % (s, r, vals))
    s = 'from mod import *\n%sx\n' % S.char('w', first)
    r = S.run(mem, {'mod': '%% %s | tag\n' % t}, s)
    if s[18:20] == t and not private(t): S.check(r[0] == 'ok' and r[1] == 'tag\n', 'wildcard import of a tag', lambda: '\n%s%r' % (s, r))
    else: S.check(r[0] == 'err' and isinstance(r[1], HError), 'tag not imported', lambda: '\n%s%r' % (s, r))

@harness(quick=[{}], bounds='context with two variables and a tag; declared names, renames and uses symbolic over three letters; one or two blocks; values of one symbolic character')
def context(S):
    c1, c2 = 'a', 'b'
    val = {c1: S.text('va', 1, UPPER), c2: S.text('vb', 1, UPPER)}
    d1, d2 = names(S, 'd1', 'd2')
    r1 = S.text('r1', 1, NM) if S.flag('rename') else None
    sep = S.choice('sep', [', ', '\ncontext ', '  # note\n# note\ncontext ', '\n\ncontext '])
    u = S.text('u', 1, NM)
    s = 'context $%s%s%s$%s\n| $%s\n' % (d1, ' as ' + r1 if r1 is not None else '', sep, d2, u)
    r = S.run(render, s, **val)
    if d1 not in val or d2 not in val:
        S.check(r[0] == 'err' and isinstance(r[1], ImportErrorEx), 'not in the context', lambda: '\n%s%r' % (s, r))
        return
    scope = {}
    scope[r1 if r1 is not None else d1] = val[d1]
    scope[d2] = val[d2]
    if u in scope: S.check(r[0] == 'ok' and r[1].lstrip('\n') == scope[u] + '\n', 'value from the context', lambda: '\n%s%r %r' % (s, r, scope))
    else: S.check(r[0] == 'err' and isinstance(r[1], HError), 'not declared', lambda: '\n%s%r' % (s, r))

def tagfun(name): return TagFunction(lambda body, a='-': name + a + body)

@harness(quick=[{}], bounds='tags from the context: names with or without mark, renamed or not, next to a variable of the same name; missing')
def context_tags(S):
    n, v = names(S, 'n', 'v')
    marks = S.flag('marks')
    tags = {('%a' if marks else 'a'): tagfun('A'), ('%b' if marks else 'b'): tagfun('B')}
    ren = S.flag('ren')
    u = S.text('u', 1, NM)
    s = 'context %%%s%s, $%s\n%s\n| $%s\n' % (n, ' as c' if ren else '', v, u, v)
    r = S.run(HyperHTML().render, s, __tags__=tags, **{'$a' if marks else 'a': 'va', '$b' if marks else 'b': 'vb'})
    if (n != 'a' and n != 'b') or (v != 'a' and v != 'b'): S.check(r[0] == 'err' and isinstance(r[1], ImportErrorEx), 'not in the context', lambda: '\n%s%r' % (s, r))
    elif u == ('c' if ren else n): S.check(r[0] == 'ok' and r[1] == ('A' if n == 'a' else 'B') + '-\nv' + v + '\n', 'tag from the context', lambda: '\n%s%r' % (s, r))
    elif u == 'a' or u == 'b': S.check(r[0] == 'ok' or isinstance(r[1], HError), 'built-in or undefined tag', lambda: '\n%s%r' % (s, r))
    else: S.check(r[0] == 'err' and isinstance(r[1], HError), 'undefined tag', lambda: '\n%s%r' % (s, r))

@harness(quick=[{}], bounds='a chain of two modules and the script, in which all variables have symbolic names over two letters: imported hypertags refer to the names of their own module, in bodies, defaults, nested tags and expressions')
def own_names(S):
    ab = RangeSet.of('ab')
    x, y, z, w = [S.text(k, 1, ab) for k in 'xyzw']
    p = S.text('p', 1, ab)
    files = {'n': '$%s = "n"\n%% K @k q=%s\n  | K$q$%s\n  @k\n' % (x, x, x),
             'm': '$%s = "m"\nfrom n import %%K\n%% H @k %s=%s\n  | H$%s$%s\n  K\n    @k\n  | {%%K("t")}\n' % (y, p, y, p, y)}
    s = '$%s = "s"\nfrom m import %%H as G\nfrom n import $%s as c, %%K as H\nG\n  | $%s$c\n  H\n    | b\n$%s = "t"\nG "v"\nH\n  G\n| {%%G("e")}$%s' % (z, x, z, w, w)
    r = S.run(mem, files, s + '\n')
    # inside G the attribute p shadows the variable of the module when they have the same name
    hy = lambda arg: 'H' + arg + (arg if p == y else 'm')
    k, kt = 'Knn', 'Knnt'
    def G(body, arg='m'): return [hy(arg)] + [k] + body + ['@' + k]
    want = G(['sn', k, 'b']) + G([], 'v') + [k] + G([])
    got = [l for l in r[1].split('\n')] if r[0] == 'ok' else []
    # the function calls put their own line breaks: only their words matter
    words = [t for l in got for t in l.split()]
    full = [hy('m'), k, 'sn', k, 'b', k, 't', hy('v'), k, k, 't', k, hy('m'), k, k, 't', hy('m'), k, 'e', k, 'tt']
    want = ' '.join(full)
    S.check(r[0] == 'ok' and ' '.join(words) == want, 'names of the own module', lambda: '\n%r\n%s\n got %r\n expected %r' % (files, s, r, want))

@harness(quick=[{}], bounds='misplaced and failing imports: in control blocks, in nested scopes, of missing modules and symbols, of a script that fails or needs a context')
def errors(S):
    files = {'m': '$x = 1\n% H | h\n', 'bad': '$x = {\n', 'fail': '$x = 1\n| {1/0}\n', 'ctx': 'context $q\n$x = 1\n', 'nest': 'p\n  $x = 1\n', 'none': ''}
    mod = S.choice('mod', ['m', 'bad', 'fail', 'ctx', 'nest', 'none', 'absent'])
    sym = S.choice('sym', ['$x', '%H', '$H', '%x', '$y', '*'])
    place = S.choice('place', ['top', 'if', 'tag', 'def'])
    imp = 'from %s import %s\n' % (mod, sym)
    s = {'top': imp, 'if': 'if 1\n  ' + imp, 'tag': 'div\n  ' + imp + '  | k\n', 'def': '% F\n  ' + imp + '  | k\nF\n'}[place]
    s += '| end\n'
    r = S.run(mem, files, s)
    ok = (mod == 'm' and sym in ('$x', '%H', '*')) or (mod in ('nest', 'none') and sym == '*')
    if place == 'if': S.check(r[0] == 'err' and isinstance(r[1], HError), 'import in a control block', lambda: '\n%s%r' % (s, r))
    elif ok: S.check(r[0] == 'ok' and r[1].endswith('end\n'), 'valid import', lambda: '\n%s%r' % (s, r))
    elif mod == 'fail': S.check(r[0] == 'err' and isinstance(r[1], ZeroDivisionError), 'failure of the module', lambda: '\n%s%r' % (s, r))
    elif mod == 'bad': S.check(r[0] == 'err' and isinstance(r[1], SyntaxError), 'syntax of the module', lambda: '\n%s%r' % (s, r))
    elif mod == 'ctx': S.check(r[0] == 'err' and isinstance(r[1], ImportErrorEx), 'the module needs a context', lambda: '\n%s%r' % (s, r))
    else: S.check(r[0] == 'err' and isinstance(r[1], ImportError), 'import error', lambda: '\n%s%r' % (s, r))
    if r[0] == 'ok' and place in ('tag', 'def') and sym == '$x':
        r = S.run(mem, files, s + '| $x\n')
        S.check(r[0] == 'err' and isinstance(r[1], HError), 'an import is local to its block', lambda: '\n%s%r' % (s, r))

@harness(quick=[{}], bounds='context and module values of any kind, true or false, None included: the very object is imported, under any name')
def objects(S):
    class O(object):
        def __bool__(self): return False
        def __eq__(self, o): raise Exception('compared')
        __hash__ = None
    x = S.choice('x', [None, 0, '', [], {}, False, O(), O, 'x', ValueError, Ellipsis, (1,), b'']) if S.flag('plain') else S.text('t', 1, VAL)
    ren = S.flag('ren')
    n = S.text('n', 1, NM)
    name = n if ren else 'a'
    got = []
    form = S.choice('form', ['context', 'module', 'both'])
    if form == 'context': s, env, log = 'context $a%s, $got_\n$ got_(%s)\n' % (' as ' + n if ren else '', name), {'a': x}, got.append
    else:
        s = 'context $got_, $v\nfrom math import $pi%s\n$ got_(v)\n' % (' as ' + n if ren else '')
        env, log = {'v': x, 'pi': 1}, got.append
    r = S.run(lambda: HyperHTML().render(s, got_=log, **env))
    S.check(r[0] == 'ok' and len(got) == 1 and got[0] is x, 'the object of the context', lambda: '\n%s%r %r' % (s, r, got))
