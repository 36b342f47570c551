"""Run-time dispatch called by instrumented code (see instr.py)."""
import os, sys, re, builtins, types, operator, codecs, itertools, functools, collections, copy as _copy
from types import FunctionType, MethodType, BuiltinFunctionType
from . import core, strops, sregex
from .ranges import RangeSet
from .core import SymInt, SymBool, has_tok, TOK_LO, TOK_HI, s_not, s_or, s_and, mk_bool, mk_int
from .strops import eq as str_eq, conc

Pattern = re.Pattern
_missing = object()

def tokstr(x): return type(x) is str and not x.isascii() and has_tok(x)

def str_sub(x):
    return isinstance(x, str)

def anytok(args):
    for x in args:
        if isinstance(x, str) and not x.isascii() and has_tok(x): return True
    return False

# ---------------------------------------------------------------------------------------------------------------- equality

def sym_eq(a, b):
    """a == b for any values."""
    ta, tb = type(a), type(b)
    if isinstance(a, str) and isinstance(b, str):
        if a.isascii() and b.isascii(): return a == b
        return str_eq(a, b)
    if a is b and ta is not float and (ta in BUILTIN_EQ or ta.__eq__ is object.__eq__): return True
    if ta in (SymInt, SymBool) or tb in (SymInt, SymBool):
        if ta in NUMERIC and tb in NUMERIC: return a == b if ta in (SymInt, SymBool) else b == a
        if ta in BUILTIN_EQ and tb in BUILTIN_EQ: return False
        return b == a if ta in (SymInt, SymBool) else a == b            # objects with their own comparison
    if ta is tb and ta in (list, tuple):
        if len(a) != len(b): return False
        return s_and(*[item_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b): return False
        out = []
        for k, v in a.items():
            r = dfind(b, k)
            if r is _missing: return False
            out.append(item_eq(v, b[r]))
        return s_and(*out)
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if len(a) != len(b): return False
        return all(dfind(b, k) is not _missing for k in a)
    return a == b

NUMERIC = {int, bool, float, SymInt, SymBool}
BUILTIN_EQ = {int, bool, str, list, tuple, dict, set, frozenset, type(None), SymInt, SymBool, bytes, type, range}

def item_eq(x, y):
    """Comparison of items of collections: identity or equality, as a truth value."""
    if x is y: return True
    r = sym_eq(x, y)
    return r if r is True or r is False or type(r) is SymBool else bool(r)

def cmp(op, a, b):
    if op == '==':
        return sym_eq(a, b)
    if op == '!=':
        if not (type(a) in BUILTIN_EQ or isinstance(a, (str, dict))) or not (type(b) in BUILTIN_EQ or isinstance(b, (str, dict))): return a != b
        return s_not(sym_eq(a, b))
    if op == 'in': return contains(b, a)
    if op == 'not in': return s_not(contains(b, a))
    if op == 'is':
        if isinstance(a, SymBool) and (b is True or b is False): return a == b
        if isinstance(b, SymBool) and (a is True or a is False): return b == a
        return a is b
    if op == 'is not':
        if isinstance(a, SymBool) and (b is True or b is False): return s_not(a == b)
        if isinstance(b, SymBool) and (a is True or a is False): return s_not(b == a)
        return a is not b
    if isinstance(a, str) and isinstance(b, str) and (tokstr(a) or tokstr(b)):
        if op == '<': return strops.lt(a, b)
        if op == '<=': return strops.lt(a, b, False)
        if op == '>': return strops.lt(b, a)
        if op == '>=': return strops.lt(b, a, False)
    if type(a) is type(b) and type(a) in (tuple, list):
        return seq_order(op, a, b)
    if op == '<': return a < b
    if op == '<=': return a <= b
    if op == '>': return a > b
    if op == '>=': return a >= b
    raise AssertionError(op)

def seq_order(op, a, b):
    for x, y in zip(a, b):
        if not bool(sym_eq(x, y)): return cmp(op if op in '<>' else op[0], x, y)
    return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](len(a), len(b))

def cmpchain(ops, first, *rest):
    """a OP b OP c ...: `rest` are thunks."""
    x = first
    n = len(ops)
    for op, th in zip(ops, rest):
        y = th()
        r = cmp(op, x, y)
        n -= 1
        if not n: return r
        if not r: return r
        x = y

def contains(c, x):
    t = type(c)
    if isinstance(c, str):
        if isinstance(x, str) and (tokstr(c) or tokstr(x)): return strops.contains(c, x)
        return x in c
    if t in (list, tuple):
        r = []
        for y in c:
            e = item_eq(y, x)
            if e is True: return True
            if e is not False: r.append(e)
        return s_or(*r) if r else False
    if isinstance(c, (dict, set, frozenset)) and plain(t, '__contains__'):
        return dfind(c, x) is not _missing
    if isinstance(c, (type({}.keys()),)):
        if isinstance(x, (str, SymInt)):
            for k in c:
                if bool(sym_eq(k, x)): return True
            return False
    if isinstance(c, (type({}.values()), itertools.chain, map, filter, zip, types.GeneratorType)):
        for k in c:
            if k is x or bool(sym_eq(k, x)): return True
        return False
    if isinstance(c, range) and isinstance(x, SymInt):
        e = s_and(x >= c.start, x < c.stop) if c.step == 1 else x.value() in c
        return e
    return x in c

# ---------------------------------------------------------------------------------------------------------------- dicts and sets

def dfind(d, k):
    """The key of dict/set d that equals k on this path, or _missing."""
    if isinstance(k, str):
        tk = not k.isascii() and has_tok(k)
        if k in d: return k
        p = core.PATH
        if not tk and (p is None or not p.hashed): return _missing
        n = len(k)
        for r in d:
            if isinstance(r, str) and len(r) == n and (tk or not r.isascii()):
                if bool(str_eq(k, r)): return r
        return _missing
    if isinstance(k, SymInt) or isinstance(k, SymBool):
        k = k.value() if isinstance(k, SymInt) else bool(k)
        return k if k in d else _missing
    if type(k) is tuple and core.PATH is not None and core.PATH.hashed | deep_tok(k):
        if k in d: return k
        for r in d:
            if type(r) is tuple and len(r) == len(k) and bool(sym_eq(r, k)): return r
        return _missing
    return k if k in d else _missing

def deep_tok(t):
    for x in t:
        if isinstance(x, str):
            if has_tok(x): return True
        elif type(x) is tuple:
            if deep_tok(x): return True
    return False

def plain(t, name):
    """Does type t (a dict or set) inherit method `name` of the built-in type?"""
    return type(getattr(t, name)).__name__ in ('wrapper_descriptor', 'method_descriptor')

def note_key(k):
    if isinstance(k, str):
        if not k.isascii() and has_tok(k) and core.PATH is not None: core.PATH.hashed = True
    elif type(k) is tuple and core.PATH is not None and deep_tok(k): core.PATH.hashed = True

def special(k):
    """Does a dictionary operation with key k need the solver?"""
    if isinstance(k, str): return (not k.isascii() and has_tok(k)) or (core.PATH is not None and core.PATH.hashed)
    if isinstance(k, (SymInt, SymBool)): return True
    if type(k) is tuple: return (core.PATH is not None and core.PATH.hashed) or deep_tok(k)
    return False

def dset(d, k, v):
    r = dfind(d, k)
    if r is _missing:
        if isinstance(k, SymInt): k = k.value()
        elif isinstance(k, SymBool): k = bool(k)
        note_key(k); d[k] = v
    else: d[r] = v

def sadd(s, k):
    r = dfind(s, k)
    if r is _missing:
        if isinstance(k, SymInt): k = k.value()
        elif isinstance(k, SymBool): k = bool(k)
        note_key(k); s.add(k)

def getitem(o, k):
    if isinstance(o, dict) and not isinstance(k, slice) and special(k):
        if not plain(type(o), '__getitem__'): return o[k]
        r = dfind(o, k)
        if r is _missing:
            if hasattr(type(o), '__missing__'): return type(o).__missing__(o, k)
            raise KeyError(k)
        return o[r]
    return o[k]

def setitem(o, k, v):
    if isinstance(o, dict) and special(k) and plain(type(o), '__setitem__'): dset(o, k, v)
    else: o[k] = v

def delitem(o, k):
    if isinstance(o, dict) and not isinstance(k, slice) and special(k):
        r = dfind(o, k)
        if r is _missing: raise KeyError(k)
        del o[r]
    else: del o[k]

_iops = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv,
         '%': operator.imod, '**': operator.ipow, '<<': operator.ilshift, '>>': operator.irshift, '&': operator.iand,
         '|': operator.ior, '^': operator.ixor, '@': operator.imatmul}

def augitem(o, k, op, v):
    setitem(o, k, _iops[op](getitem(o, k), v))

def augop(op, x, v):
    if op in '&|-^' and isinstance(x, set): return callm(x, {'&': 'intersection_update', '|': 'update', '-': 'difference_update',
                                                             '^': 'symmetric_difference_update'}[op], v) or x
    if op == '%' and tokstr(x): return strops.percent(x, v)
    return _iops[op](x, v)

def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if special(k): dset(d, k, v)
        else: d[k] = v
    return d

def mkdict_star(*items):
    """items: (True, mapping) for **mapping or (False, (k, v))."""
    d = {}
    for star, x in items:
        for k, v in (x.items() if star else (x,)):
            if special(k): dset(d, k, v)
            else: d[k] = v
    return d

def mkset(it):
    s = set()
    for k in it:
        if special(k): sadd(s, k)
        else: s.add(k)
    return s

class CharSet(object):
    """set(text) of a text with tokens; which of the characters coincide is only decided when it matters."""
    def __init__(self, text): self.text, self.done = text, None
    def real(self):
        if self.done is None: self.done = mkset(iter(self.text))
        return self.done
    def meet(self, other):
        if self.done is not None: return binop('&', self.done, other if isinstance(other, (set, frozenset)) else set(other))
        out = set()
        rs = RangeSet.of([c for c in other if isinstance(c, str) and len(c) == 1 and not has_tok(c)])
        rest = [c for c in other if isinstance(c, str) and has_tok(c)]
        for c in self.text:
            if rest: return binop('&', self.real(), set(other))
            if not has_tok(c):
                if c in other: out.add(c)
            elif bool(strops.in_class(c, rs)):
                for o in other:
                    if bool(strops.eq_ch(c, o)): out.add(o); break
        return out
    def __and__(self, o): return self.meet(o.real() if isinstance(o, CharSet) else o)
    __rand__ = __and__
    def intersection(self, *os):
        r = self
        for o in os: r = r.meet(o) if isinstance(r, CharSet) else binop('&', r, mkset(o))
        return r
    def isdisjoint(self, o): return not self.meet(o)
    def __contains__(self, c): return bool(strops.contains(self.text, c)) if isinstance(c, str) and len(c) == 1 else False
    def __bool__(self): return bool(self.text)
    def __iter__(self): return iter(self.real())
    def __len__(self): return len(self.real())
    def __or__(self, o): return binop('|', self.real(), o.real() if isinstance(o, CharSet) else o)
    def __sub__(self, o): return binop('-', self.real(), o.real() if isinstance(o, CharSet) else o)
    def __xor__(self, o): return binop('^', self.real(), o.real() if isinstance(o, CharSet) else o)
    def __ror__(self, o): return binop('|', o, self.real())
    def __rsub__(self, o): return binop('-', o, self.real())
    def __eq__(self, o): return self.real() == (o.real() if isinstance(o, CharSet) else o)
    def __getattr__(self, name):
        if not hasattr(set, name): raise AttributeError(name)
        return lambda *a, **k: set_method(self.real(), name, a, k)
    __hash__ = None

def _mkset(*a):
    if not a: return set()
    if isinstance(a[0], str) and has_tok(a[0]): return CharSet(str(a[0]))
    return mkset(*a)

def _resolved(a, b):
    """Set b with its elements replaced by the equal elements of a, as decided on this path."""
    out = set()
    for k in b:
        r = dfind(a, k)
        out.add(k if r is _missing else r)
    return out

def _set_special(a, b):
    p = core.PATH
    return p is not None and (p.hashed or anytok(x for x in a if type(x) is str) or anytok(x for x in b if type(x) is str))

def binop(op, a, b):
    if op == '%':
        if isinstance(a, str):
            if tokstr(a): return strops.percent(a, b)
            return a % b
        return a % b
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and _set_special(a, b): b = type(a)(_resolved(a, b))
    if op == '&': return a & b
    if op == '|':
        if isinstance(a, dict) and isinstance(b, dict): return mkdict(itertools.chain(a.items(), b.items()))
        return a | b
    if op == '-': return a - b
    if op == '^': return a ^ b
    raise AssertionError(op)

def dict_method(d, name, a, k):
    if name == 'get':
        if special(a[0]):
            r = dfind(d, a[0])
            return (a[1] if len(a) > 1 else k.get('default')) if r is _missing else d[r]
    elif name == 'setdefault':
        if special(a[0]):
            r = dfind(d, a[0])
            if r is _missing:
                v = a[1] if len(a) > 1 else None
                dset(d, a[0], v); return v
            return d[r]
    elif name == 'pop':
        if special(a[0]):
            r = dfind(d, a[0])
            if r is _missing:
                if len(a) > 1: return a[1]
                raise KeyError(a[0])
            return d.pop(r)
    elif name == 'update':
        p = core.PATH
        src = a[0] if a else {}
        pairs = list(src.items()) if hasattr(src, 'items') else list(src)
        for x, v in itertools.chain(pairs, k.items()):
            if special(x): dset(d, x, v)
            else: d[x] = v
        return None
    elif name == '__contains__': return dfind(d, a[0]) is not _missing
    elif name == '__getitem__': return getitem(d, a[0])
    elif name == '__setitem__': return setitem(d, *a)
    elif name == '__delitem__': return delitem(d, *a)
    elif name == 'fromkeys': return mkdict((x, a[1] if len(a) > 1 else None) for x in a[0])
    return getattr(d, name)(*a, **k)

def set_method(s, name, a, k):
    if name == 'add': return sadd(s, a[0])
    if name in ('remove', 'discard'):
        r = dfind(s, a[0])
        if r is _missing:
            if name == 'remove': raise KeyError(a[0])
            return None
        return getattr(s, name)(r)
    if name == '__contains__': return dfind(s, a[0]) is not _missing
    if name in ('update', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint',
                'intersection_update', 'difference_update', 'symmetric_difference_update'):
        if name in ('update', 'union'):
            t = s if name == 'update' else set(s)
            for it in a:
                for x in it: sadd(t, x)
            return None if name == 'update' else t
        args = []
        for it in a:
            it = mkset(it)
            args.append(_resolved(s, it) if _set_special(s, it) else it)
        return getattr(s, name)(*args, **k)
    return getattr(s, name)(*a, **k)

def list_method(l, name, a, k):
    if name == 'index':
        for i, x in enumerate(l[slice(*a[1:])] if len(a) > 1 else l):
            if x is a[0] or bool(sym_eq(x, a[0])): return i + (a[1] if len(a) > 1 else 0)
        raise ValueError('%r is not in list' % (a[0],))
    if name == 'count':
        return sum(1 for x in l if x is a[0] or bool(sym_eq(x, a[0])))
    if name == 'remove':
        for i, x in enumerate(l):
            if x is a[0] or bool(sym_eq(x, a[0])): del l[i]; return
        raise ValueError('list.remove(x): x not in list')
    if name == 'sort':
        l[:] = sorted_(l, **k); return
    return getattr(l, name)(*a, **k)

# ---------------------------------------------------------------------------------------------------------------- calls

def sorted_(it, key=None, reverse=False):
    items = list(it)
    keys = [call(key, x) for x in items] if key is not None else items
    lt = lambda a, b: cmp('<', a, b)
    class K(object):
        __slots__ = ('k',)
        def __init__(self, k): self.k = k
        def __lt__(self, o): return bool(lt(self.k, o.k))
    order = sorted(range(len(items)), key=lambda i: K(keys[i]), reverse=reverse)
    return [items[i] for i in order]

def _minmax(op):
    def f(*a, **k):
        key = k.pop('key', None)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k: return k['default']
            raise ValueError('%s() arg is an empty sequence' % ('min' if op == '<' else 'max'))
        if key is None and all(type(x) is str and len(x) == 1 for x in items) and anytok(items):
            # one term instead of a fork per comparison
            import z3
            p = core.PATH
            e = p.expr_of(items[0])
            for x in items[1:]:
                y = p.expr_of(x)
                e = z3.If(y < e if op == '<' else y > e, y, e)
            return strops.symbolic_char(e)
        if key is None and any(isinstance(x, SymInt) for x in items) and all(isinstance(x, (int, SymInt)) for x in items):
            import z3
            e = core.i_expr(items[0])
            for x in items[1:]:
                y = core.i_expr(x)
                e = z3.If(y < e if op == '<' else y > e, y, e)
            return mk_int(e)
        best = items[0]; bk = call(key, best) if key else best
        for x in items[1:]:
            xk = call(key, x) if key else x
            if bool(cmp(op, xk, bk)): best, bk = x, xk
        return best
    return f

def _int(*a, **k):
    if a and isinstance(a[0], str) and tokstr(a[0]): return strops.to_int(a[0], *a[1:])
    if a and isinstance(a[0], SymInt) and len(a) == 1: return a[0]
    if a and isinstance(a[0], SymBool): return a[0]._int()
    return int(*a, **k)

def _bool(*a):
    if a and isinstance(a[0], SymBool): return a[0]
    if a and isinstance(a[0], SymInt): return a[0] != 0
    return bool(*a)

def _str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is str: return x
    return str(*a, **k)

def _isinstance(x, cls):
    tx = type(x)
    if tx is SymInt or tx is SymBool:
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(c, tuple):
                if _isinstance(x, c): return True
            elif c is int or c is object: return True
            elif c is bool and tx is SymBool: return True
            elif c is tx: return True
            elif c.__module__ == 'numbers': return True
        return False
    return isinstance(x, cls)

def _type(*a):
    if len(a) == 1:
        t = type(a[0])
        return int if t is SymInt else bool if t is SymBool else t
    return type(*a)

def _ord(c):
    if tokstr(c): return mk_int(core.PATH.exprs[c])
    return ord(c)

def _chr(i):
    if isinstance(i, SymInt): return strops.symbolic_char(i.e)
    return chr(i)

def _map(f, *its): return map(wrapf(f), *its)
def _filter(f, it): return filter(None if f is None else wrapf(f), it)
def _reduce(f, *a): return functools.reduce(wrapf(f), *a)

def wrapf(f):
    """A function that can be called from C code: builtins go through call()."""
    if type(f) is FunctionType or f is None: return f
    return lambda *a, **k: call(f, *a, **k)

def _getattr(o, name, *d):
    if tokstr(name): name = strops.conc(name)
    r = getattr(o, name, *d)
    if (o is str or type(o) in (str, Pattern, dict, set)) and name in INTERESTING: return ga(o, name)
    return r

def _dict(*a, **k):
    if a:
        src = a[0]
        pairs = src.items() if hasattr(src, 'items') else src
        d = mkdict(pairs)
        d.update(k)
        return d
    return dict(**k)

def _sum(it, *start, **k):
    r = start[0] if start else k.get('start', 0)
    for x in it: r = r + x
    return r

def _repr(x):
    if tokstr(x): return repr(conc(x))
    return repr(x)

def _float(*a):
    if a and isinstance(a[0], str): return float(conc(a[0]))
    return float(*a)

def _decode(s, *a, **k):
    return codecs.decode(conc(s) if isinstance(s, str) else s, *a, **k)

def _fspath(x):
    return x if isinstance(x, str) else os.fspath(x)

def _lru_cache(maxsize=128, typed=False):
    """functools.lru_cache with keys that may be symbolic (without eviction)."""
    def deco(f):
        table = {}
        def wrapper(*a, **k):
            key = (a, tuple(sorted(k.items())), tuple(type(x) for x in a) if typed else ())
            hash(key)
            r = dfind(table, key)
            if r is not _missing: return table[r]
            v = f(*a, **k)
            if maxsize != 0: dset(table, key, v)
            return v
        wrapper.cache_clear = table.clear
        wrapper.cache_info = lambda: (0, 0, maxsize, len(table))
        wrapper.cache_parameters = lambda: {'maxsize': maxsize, 'typed': typed}
        return functools.update_wrapper(wrapper, f)
    if callable(maxsize) and isinstance(typed, bool):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco

def _hash(x):
    if tokstr(x): return hash(conc(x))
    return hash(x)

def _any(it):
    for x in it:
        if x: return True
    return False

def _all(it):
    for x in it:
        if not x: return False
    return True

def _groupby(it, key=None):
    kf = (lambda x: x) if key is None else key
    items = list(it); out = []
    for x in items:
        k = call(kf, x)
        if out and bool(sym_eq(out[-1][0], k)): out[-1][1].append(x)
        else: out.append((k, [x]))
    return iter([(k, iter(v)) for k, v in out])

def _counter(it=(), **k):
    c = collections.Counter()
    for x in it: setitem(c, x, (getitem(c, x) if contains(c, x) else 0) + 1)
    return c

def _re_fun(name):
    def f(pattern, *a, **k):
        flags = k.pop('flags', 0)
        n = {'match': 1, 'search': 1, 'fullmatch': 1, 'findall': 1, 'finditer': 1, 'split': 2, 'sub': 3, 'subn': 3}[name]
        if len(a) > n: flags, a = a[n], a[:n]
        rx = re.compile(pattern, flags) if not isinstance(pattern, Pattern) else pattern
        return sregex.pattern_method(rx, name, a, k)
    return f

HANDLERS = {
    int: _int, bool: _bool, str: _str, isinstance: _isinstance, type: _type, ord: _ord, chr: _chr, map: _map, filter: _filter,
    functools.reduce: _reduce, dict: _dict, set: _mkset, frozenset: lambda *a: frozenset(mkset(*a)) if a else frozenset(),
    sorted: sorted_, min: _minmax('<'), max: _minmax('>'), getattr: _getattr, sum: _sum, repr: _repr, float: _float,
    codecs.decode: _decode, hash: _hash, itertools.groupby: _groupby, collections.Counter: _counter,
    operator.eq: lambda a, b: cmp('==', a, b), operator.ne: lambda a, b: cmp('!=', a, b), operator.lt: lambda a, b: cmp('<', a, b),
    operator.le: lambda a, b: cmp('<=', a, b), operator.gt: lambda a, b: cmp('>', a, b), operator.ge: lambda a, b: cmp('>=', a, b),
    operator.contains: lambda a, b: contains(a, b), operator.is_: lambda a, b: cmp('is', a, b), operator.is_not: lambda a, b: cmp('is not', a, b),
    operator.getitem: getitem, operator.setitem: setitem, operator.delitem: delitem, operator.mod: lambda a, b: binop('%', a, b),
    operator.and_: lambda a, b: binop('&', a, b), operator.or_: lambda a, b: binop('|', a, b), operator.not_: lambda a: s_not(a) if isinstance(a, SymBool) else not a,
    operator.truth: _bool, collections.OrderedDict: _dict, any: _any, all: _all,
    os.fspath: _fspath,
    re.sub: _re_fun('sub'), re.subn: _re_fun('subn'), re.match: _re_fun('match'), re.search: _re_fun('search'), re.fullmatch: _re_fun('fullmatch'),
    re.findall: _re_fun('findall'), re.finditer: _re_fun('finditer'), re.split: _re_fun('split'),
}

# functions that only move their arguments around
SAFE = {len, list, tuple, iter, next, zip, enumerate, reversed, print, isinstance, issubclass, callable, id, hasattr, setattr, super, slice,
        range, open, divmod, abs, round, object, staticmethod, classmethod, property, itertools.chain, itertools.cycle, itertools.islice,
        itertools.repeat, itertools.tee, itertools.zip_longest, itertools.starmap, functools.partial, functools.wraps, operator.add, operator.concat,
        operator.itemgetter, operator.attrgetter, _copy.copy, _copy.deepcopy, input, vars, format, collections.deque, operator.iadd, operator.mul,
        functools.update_wrapper, property, types.MethodType, collections.namedtuple, delattr}

CONTAINERS = {Pattern, set, frozenset, list}

_opset = {f for f in vars(operator).values() if callable(f)}

def call(f, /, *a, **k):
    if type(f) is FunctionType:
        if f.__module__ not in INSTRUMENTED:
            h = HANDLERS.get(f)
            if h is not None: return h(*a, **k)
            if anytok(a) or k and anytok(k.values()): f = shadow(f)
        return f(*a, **k)
    try: h = HANDLERS.get(f)
    except TypeError: h = None
    if h is not None: return h(*a, **k)
    t = type(f)
    if t is MethodType:
        return f(*a, **k)
    if isinstance(f, type):
        if isinstance(f, type) and issubclass(f, str) and f is not str: return f(*a, **k)
        return f(*a, **k)
    s = getattr(f, '__self__', None)
    if s is not None and not isinstance(s, types.ModuleType):
        # a bound method of a builtin object
        n = getattr(f, '__name__', None)
        if isinstance(s, (str, dict)) or type(s) in CONTAINERS: return callm(s, n, *a, **k)
        return f(*a, **k)
    oc = getattr(f, '__objclass__', None)
    if oc is not None and a:
        if oc in (str, dict, set, list, Pattern): return callm(a[0], f.__name__, *a[1:], **k)
        return f(*a, **k)
    if isinstance(f, BuiltinFunctionType) and anytok(a) and f not in SAFE and f not in _opset:
        # a C function that may look at the characters: continue with concrete values
        core.PATH.covers.add('~concretised: %s' % getattr(f, '__qualname__', f))
        a = [conc(x) if isinstance(x, str) else x for x in a]
    return f(*a, **k)

STR_METHODS = {n for n in dir(str) if not n.startswith('__')}
DICT_METHODS = {'get', 'setdefault', 'pop', 'update', 'fromkeys'}
SET_METHODS = {'add', 'remove', 'discard', 'update', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset',
               'isdisjoint', 'intersection_update', 'difference_update', 'symmetric_difference_update'}
LIST_METHODS = {'index', 'count', 'remove', 'sort'}
RE_METHODS = {'match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub', 'subn'}
INTERESTING = STR_METHODS | DICT_METHODS | SET_METHODS | LIST_METHODS | RE_METHODS | {'__contains__', '__getitem__', '__setitem__', '__eq__', '__ne__'}

def callm(o, name, /, *a, **k):
    t = type(o)
    if isinstance(o, str):
        if t is not str and name in t.__dict__: return getattr(o, name)(*a, **k)
        if name == 'join':
            return o.join(a[0])
        if tokstr(o) or (a and anytok(a)) or (a and type(a[0]) is tuple and anytok(a[0])):
            return strops.method(str(o) if t is not str else o, name, a, k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict):
        if name in t.__dict__ and t is not dict and not t.__module__ in ('builtins', 'collections'): return getattr(o, name)(*a, **k)
        return dict_method(o, name, a, k)
    if t is Pattern: return sregex.pattern_method(o, name, a, k)
    if t is set or t is frozenset: return set_method(o, name, a, k)
    if t is list: return list_method(o, name, a, k)
    if o is str and a and isinstance(a[0], str): return callm(a[0], name, *a[1:], **k)
    if o is dict:
        if name == 'fromkeys': return dict_method(o, name, a, k)
        return callm(a[0], name, *a[1:], **k)
    return call(getattr(o, name), *a, **k)

def ga(o, name):
    """Attribute access that is not a direct call, for attributes with the name of a method of str, dict, set or Pattern."""
    r = getattr(o, name)
    if o is str or isinstance(o, str) or type(o) in (dict, set, Pattern):
        if callable(r): return functools.partial(callm, o, name)
    return r

# ---------------------------------------------------------------------------------------------------------------- library functions

INSTRUMENTED = set()        # names of instrumented modules
_shadow = {}
NO_SHADOW = ('parsimonious', 'z3', 'engine', 'six', 'copy', 'importlib', 'os', 'types', 'functools', 'collections',
             'abc', 'enum', 'inspect', 'typing', 'contextlib', 'operator', 'codecs', 'django')

def shadow(f):
    """Instrumented twin of a pure-Python library function that receives symbolic strings."""
    mod = f.__module__
    if not mod or mod.split('.')[0] in NO_SHADOW or f.__closure__: return f
    key = (mod, f.__qualname__)
    if key in _shadow: return _shadow[key]
    r = f
    try:
        from . import instr
        ns = instr.shadow_module(mod)
        if ns is not None:
            r = ns
            for part in f.__qualname__.split('.'): r = r[part] if isinstance(r, dict) else getattr(r, part)
            if type(r) is not FunctionType: r = f
    except Exception:
        r = f
    _shadow[key] = r
    return r
