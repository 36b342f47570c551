"""
Import hook: the current sources of hypertag (and a few pure-Python library modules it hands text to) are rewritten at the
level of the Python AST so that every operation that could look inside a value goes through rt.py. Nothing else changes.
"""
import ast, sys, os, builtins, importlib.util, importlib.abc, importlib.machinery, types, warnings
from . import rt

CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
       ast.In: 'in', ast.NotIn: 'not in'}
BIN = {ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.Sub: '-', ast.BitXor: '^'}
AUG = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
       ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
LEAVE = {'super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir', '__import__', 'staticmethod', 'classmethod', 'property', 'print'}

def N(name): return ast.Name('_S_%s_' % name, ast.Load())
def C(s): return ast.Constant(s)


class Rewriter(ast.NodeTransformer):

    def __init__(self, fname): self.fname, self.n = fname, 0; self.stack = []

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        qual = '.'.join(self.stack)
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
            doc, body = body[:1], body[1:]
        new = []
        for st in body:
            r = self.visit(st)
            if isinstance(r, list): new += r
            elif r is not None: new.append(r)
        mark = ast.Expr(ast.Call(N('enter'), [C(self.fname + ':' + qual)], []))
        node.body = doc + [mark] + new
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in LEAVE: return node
            return ast.Call(N('call'), [f] + node.args, node.keywords)
        if isinstance(f, ast.Attribute):
            return ast.Call(N('callm'), [f.value, C(self.mangle(f.attr))] + node.args, node.keywords) if self.interesting(f.attr) else \
                   ast.Call(N('call'), [f] + node.args, node.keywords)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == '_S_ga_':
            return ast.Call(N('callm'), f.args + node.args, node.keywords)
        return ast.Call(N('call'), [f] + node.args, node.keywords)

    def interesting(self, a): return a in rt.INTERESTING
    def mangle(self, a): return a

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.interesting(node.attr):
            return ast.Call(N('ga'), [node.value, C(node.attr)], [])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = [CMP[type(o)] for o in node.ops]
        if len(ops) == 1:
            if ops[0] in ('is', 'is not') and isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None: return node
            return ast.Call(N('cmp'), [C(ops[0]), node.left, node.comparators[0]], [])
        thunks = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), c) for c in node.comparators]
        return ast.Call(N('cmpchain'), [ast.Tuple([C(o) for o in ops], ast.Load()), node.left] + thunks, [])

    def visit_BinOp(self, node):
        self.generic_visit(node)
        op = BIN.get(type(node.op))
        if op is None: return node
        return ast.Call(N('binop'), [C(op), node.left, node.right], [])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice): return node
            if isinstance(sl, ast.Constant) and isinstance(sl.value, int): return node
            return ast.Call(N('getitem'), [node.value, sl], [])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys: return node
        if all(isinstance(k, ast.Constant) for k in node.keys): return node
        items = [ast.Tuple([C(True), v], ast.Load()) if k is None else
                 ast.Tuple([C(False), ast.Tuple([k, v], ast.Load())], ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.Call(N('mkdict_star'), items, [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.Call(N('mkdict'), [ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)], [])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(N('mkset'), [ast.GeneratorExp(node.elt, node.generators)], [])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(N('mkset'), [ast.List(node.elts, ast.Load())], [])

    def _simple_sub(self, t):
        return isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice)

    def visit_Assign(self, node):
        if not any(self._simple_sub(t) for t in node.targets):
            return self.generic_visit(node)
        self.n += 1
        tmp = '_S_tmp%d_' % self.n
        out = [ast.Assign([ast.Name(tmp, ast.Store())], self.visit(node.value))]
        for t in node.targets:
            if self._simple_sub(t):
                out.append(ast.Expr(ast.Call(N('setitem'), [self.visit(t.value), self.visit(t.slice), ast.Name(tmp, ast.Load())], [])))
            else:
                out.append(ast.Assign([self.visit(t)], ast.Name(tmp, ast.Load())))
        return out

    def visit_AugAssign(self, node):
        op = AUG[type(node.op)]
        t = node.target
        if self._simple_sub(t):
            return ast.Expr(ast.Call(N('augitem'), [self.visit(t.value), self.visit(t.slice), C(op), self.visit(node.value)], []))
        self.generic_visit(node)
        if isinstance(t, ast.Name) and op in '&|-^%':
            return ast.Assign([ast.Name(t.id, ast.Store())], ast.Call(N('augop'), [C(op), ast.Name(t.id, ast.Load()), node.value], []))
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if self._simple_sub(t): out.append(ast.Expr(ast.Call(N('delitem'), [self.visit(t.value), self.visit(t.slice)], [])))
            else: out.append(ast.Delete([self.generic_visit(t)]))
        return out

    def visit_Global(self, node): return node
    def visit_JoinedStr(self, node): return self.generic_visit(node)


ENTERED = set()
_enter = ENTERED.add

def install_builtins():
    for n in 'call callm ga cmp cmpchain binop getitem setitem delitem augitem augop mkdict mkdict_star mkset'.split():
        setattr(builtins, '_S_%s_' % n, getattr(rt, n))
    builtins._S_enter_ = _enter

def rewrite(source, fname, label):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(source, fname)
        fut = [st for st in tree.body if isinstance(st, ast.ImportFrom) and st.module == '__future__']
        tree = Rewriter(label).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, fname, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, label): self.path, self.label = path, label
    def create_module(self, spec): return None
    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f: src = f.read()
        code = rewrite(src, self.path, self.label)
        rt.INSTRUMENTED.add(module.__name__)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instruments package `hypertag` from `src`, harness modules from /verif/checks, and the listed library modules."""

    LIB = ('xml.sax.saxutils',)

    def __init__(self, src, checks): self.src, self.checks = src, checks

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top == 'hypertag': base, rel = self.src, name
        elif top == 'checks': base, rel = self.checks, name
        elif name in self.LIB:
            base = os.path.dirname(os.__file__); rel = name
        else: return None
        p = os.path.join(base, *rel.split('.'))
        if os.path.isdir(p) and os.path.exists(p + '/__init__.py'):
            f = p + '/__init__.py'
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, rel), submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            f = p + '.py'
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, rel))
        return None


_shadow_ns = {}

def shadow_module(mod):
    if mod in _shadow_ns: return _shadow_ns[mod]
    m = sys.modules.get(mod)
    f = getattr(m, '__file__', None)
    ns = None
    if f and f.endswith('.py'):
        with open(f, encoding='utf-8') as fh: src = fh.read()
        ns = dict(m.__dict__)
        name = '_shadow.' + mod
        ns['__name__'] = name
        rt.INSTRUMENTED.add(name)
        exec(rewrite(src, f, mod), ns)
    _shadow_ns[mod] = ns
    return ns

# ---------------------------------------------------------------------------------------------------------------- parsimonious

PARSE_CACHE = {}
NEW_TEXTS = []

def patch_parsimonious():
    """The PEG interpreter is used as it is; only its two terminal matchers get symbolic strings."""
    import parsimonious.expressions as px, parsimonious.grammar as pg
    from parsimonious.nodes import Node, RegexNode
    from . import sregex, strops
    from .core import has_tok

    lit0, rx0 = px.Literal._uncached_match, px.Regex._uncached_match

    def lit(self, text, pos, cache, error):
        if text.isascii(): return lit0(self, text, pos, cache, error)
        l = self.literal
        part = text[pos:pos + len(l)]
        if part == l or len(part) == len(l) and (not part.isascii() or not l.isascii()) and bool(strops.eq(part, l)):
            return Node(self, text, pos, pos + len(l))

    def rx(self, text, pos, cache, error):
        if text.isascii(): return rx0(self, text, pos, cache, error)
        if has_tok(text): m = sregex.pattern_method(self.re, 'match', (text, pos), {})
        else: m = self.re.match(text, pos)
        if m is not None:
            span = m.span()
            node = RegexNode(self, text, pos, pos + span[1] - span[0])
            node.match = m
            return node

    px.Literal._uncached_match = lit
    px.Regex._uncached_match = rx

    parse0 = pg.Grammar.parse

    def parse(self, text, pos=0):
        if pos or (not text.isascii() and has_tok(text)): return parse0(self, text, pos)
        key = (id(self), text)
        hit = PARSE_CACHE.get(key)
        if hit is not None and hit[0] is self:
            if isinstance(hit[1], Exception): raise hit[1].with_traceback(None)
            return hit[1]
        try: r = parse0(self, text, pos)
        except Exception as ex:
            r = ex
        PARSE_CACHE[key] = (self, r)
        NEW_TEXTS.append(key)
        if isinstance(r, Exception): raise r
        return r

    pg.Grammar.parse = parse
    return pg.Grammar


GRAMMARS = {}

def preparse(gid, text):
    """Parse in a parent process a text that a child has parsed, for the benefit of later children."""
    key = (gid, text)
    if key in PARSE_CACHE or len(PARSE_CACHE) > 3000: return
    if not GRAMMARS:
        import gc, parsimonious.grammar as pg
        for o in gc.get_objects():
            if isinstance(o, pg.Grammar): GRAMMARS[id(o)] = o
        gc.unfreeze()
        for o in gc.get_objects():
            if isinstance(o, pg.Grammar): GRAMMARS[id(o)] = o
        gc.freeze()
    g = GRAMMARS.get(gid)
    if g is None: return
    try: g.parse(text)
    except Exception: pass
    del NEW_TEXTS[:]


class _Marks(object):
    pass


def install(src, checks):
    """Make the instrumented hypertag importable in this (CPython) process."""
    import inspect, re
    warnings.simplefilter('ignore')
    if not hasattr(inspect, 'getargspec'): inspect.getargspec = inspect.getfullargspec
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(12000)
    site = '/opt/venv/lib/pypy3.9/site-packages'
    if site not in sys.path: sys.path.append(site)
    sys.path.insert(0, src)
    sys.meta_path.insert(0, Finder(src, checks))
    install_builtins()
    import functools
    functools.lru_cache = rt._lru_cache
    functools.cache = lambda f: rt._lru_cache(None)(f)
    patch_parsimonious()
    import xml.sax.saxutils as su
    if 'xml.sax.saxutils' in sys.modules and not hasattr(su, '_S_done'):
        spec = sys.meta_path[0].find_spec('xml.sax.saxutils', None)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m._S_done = True
        sys.modules['xml.sax.saxutils'] = m
        import xml.sax
        xml.sax.saxutils = m
