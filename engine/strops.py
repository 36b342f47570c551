"""Symbolic versions of str operations for strings that contain tokens."""
import sys, unicodedata
import z3
from . import core
from .core import SymBool, SymInt, has_tok, s_and, s_or, s_not, mk_bool, mk_int, range_cond, TOK_LO, TOK_HI
from .ranges import RangeSet, MAXCP

# ---------------------------------------------------------------------------------------------------------------- character classes

_pred_sets = {}

def pred_set(name, f=None):
    """RangeSet of all characters with the given property (a str method name, or a function of a character)."""
    rs = _pred_sets.get(name)
    if rs is None:
        if f is None: f = getattr(str, name)
        out, start = [], None
        for c in range(MAXCP + 1):
            if f(chr(c)):
                if start is None: start = c
            elif start is not None:
                out.append((start, c - 1)); start = None
        if start is not None: out.append((start, MAXCP))
        rs = _pred_sets[name] = RangeSet(out)
    return rs

LINEBREAKS = RangeSet.of('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')

def in_class(ch, rs):
    o = ord(ch)
    if not TOK_LO <= o <= TOK_HI: return o in rs
    p = core.PATH
    dom = p.doms.get(ch)
    if dom is not None:
        inter = dom & rs
        if not inter: return False
        if inter.r == dom.r: return True
        return SymBool(None, ch, rs)
    return mk_bool(range_cond(p.exprs[ch], rs))

_singles = {}
def single(o):
    r = _singles.get(o)
    if r is None: r = _singles[o] = RangeSet.single(o)
    return r

def eq_ch(a, b):
    if a == b: return True
    oa, ob = ord(a), ord(b)
    ta = TOK_LO <= oa <= TOK_HI; tb = TOK_LO <= ob <= TOK_HI
    if not ta and not tb: return False
    if not tb: return in_class(a, single(ob))
    if not ta: return in_class(b, single(oa))
    p = core.PATH
    da, db = p.doms.get(a), p.doms.get(b)
    if da is not None and db is not None:
        if not (da & db): return False
        if da.size == 1: return in_class(b, da)
        if db.size == 1: return in_class(a, db)
    return mk_bool(p.exprs[a] == p.exprs[b])

def eq(a, b):
    """Symbolic equality of two strings."""
    if a == b: return True
    if len(a) != len(b): return False
    conds = []
    for x, y in zip(a, b):
        if x == y: continue
        c = eq_ch(x, y)
        if c is False: return False
        if c is not True: conds.append(c)
    return s_and(*conds) if conds else True

def eq_at(s, sub, i):
    """Does `sub` occur in `s` at position i?"""
    return eq(s[i:i + len(sub)], sub)

def lt(a, b, strict=True):
    """Lexicographic comparison a < b (or <= if not strict)."""
    res = mk_bool(z3.BoolVal(len(a) < len(b) if strict else len(a) <= len(b)))
    p = core.PATH
    for x, y in reversed(list(zip(a, b))):
        if x == y: continue
        ex, ey = p.expr_of(x), p.expr_of(y)
        res = mk_bool(z3.If(ex == ey, core.b_expr(res), ex < ey))
    return res

def conc_tok(t, limit=24):
    p = core.PATH
    dom = p.doms.get(t)
    if dom is not None and dom.size == 1: return chr(dom.first())
    if dom is not None and dom.size <= 256: limit = None
    return chr(p.concretize(p.exprs[t], limit=limit))

def conc(s):
    """Concrete version of a string: forks over the values of its tokens."""
    if not has_tok(s): return s
    return ''.join(conc_tok(c) if TOK_LO <= ord(c) <= TOK_HI else c for c in s)

def resolve(s):
    """Replace tokens whose value is already determined by their domain."""
    if not has_tok(s): return s
    d = core.PATH.doms
    out = []
    for c in s:
        if TOK_LO <= ord(c) <= TOK_HI:
            r = d.get(c)
            if r is not None and r.size == 1: c = chr(r.first())
        out.append(c)
    return ''.join(out)

def symbolic_char(e):
    """One-character string for an integer term (code point)."""
    e = z3.simplify(e)
    if z3.is_int_value(e): return chr(e.as_long())
    return core.PATH.new_token(e)

# ---------------------------------------------------------------------------------------------------------------- case mapping

_case_groups = {}

def _case(name):
    """[(kind, data, RangeSet)]: kind 'd': code point shifted by data; kind 's': replaced by the string data."""
    g = _case_groups.get(name)
    if g is None:
        f = getattr(str, name)
        deltas, multi = {}, {}
        for c in range(MAXCP + 1):
            if 0xD800 <= c <= 0xDFFF: continue
            u = f(chr(c))
            if len(u) == 1: deltas.setdefault(ord(u) - c, []).append((c, c))
            else: multi.setdefault(u, []).append((c, c))
        g = ([(d, RangeSet(r)) for d, r in deltas.items()], [(u, RangeSet(r)) for u, r in multi.items()])
        _case_groups[name] = g
    return g

def map_case(ch, name):
    p = core.PATH
    dom = p.doms.get(ch)
    if dom is None: return getattr(conc_tok(ch), name)()
    deltas, multi = _case(name)
    for u, rs in multi:
        if dom & rs and bool(in_class(ch, rs)): return u
        dom = p.doms[ch]
    live = [(d, rs & dom) for d, rs in deltas if rs & dom]
    if len(live) == 1 and live[0][0] == 0: return ch
    v = p.exprs[ch]
    e = v
    for d, rs in live:
        if d: e = z3.If(range_cond(v, rs), v + d, e)
    return p.new_token(e)

# ---------------------------------------------------------------------------------------------------------------- methods

def _span(s, start, end):
    a, b, _ = slice(start, end).indices(len(s))
    return a, max(a, b) if b >= a else a

def find(s, sub, start=None, end=None):
    n = len(s)
    a, b, _ = slice(start, end).indices(n)
    if start is not None and start > n: return -1
    for i in range(a, b - len(sub) + 1):
        if bool(eq_at(s, sub, i)): return i
    return -1

def rfind(s, sub, start=None, end=None):
    n = len(s)
    a, b, _ = slice(start, end).indices(n)
    if start is not None and start > n: return -1
    for i in range(b - len(sub), a - 1, -1):
        if bool(eq_at(s, sub, i)): return i
    return -1

def index(s, sub, *a):
    i = find(s, sub, *a)
    if i < 0: raise ValueError('substring not found')
    return i

def rindex(s, sub, *a):
    i = rfind(s, sub, *a)
    if i < 0: raise ValueError('substring not found')
    return i

def contains(s, sub):
    """Lazy: one condition instead of a fork per position."""
    if sub in s: return True
    m = len(sub)
    return s_or(*[eq_at(s, sub, i) for i in range(len(s) - m + 1)])

def count(s, sub, start=None, end=None):
    a, b, _ = slice(start, end).indices(len(s))
    s = s[a:b]
    if not sub: return len(s) + 1
    n = i = 0
    while i + len(sub) <= len(s):
        if bool(eq_at(s, sub, i)): n += 1; i += len(sub)
        else: i += 1
    return n

def replace(s, old, new, count=-1):
    if count == 0: return s
    out, i, n = [], 0, 0
    if not old:
        for ch in s:
            if count < 0 or n < count: out.append(new); n += 1
            out.append(ch)
        if count < 0 or n < count: out.append(new)
        return ''.join(out)
    m = len(old)
    while i < len(s):
        if (count < 0 or n < count) and i + m <= len(s) and bool(eq_at(s, old, i)):
            out.append(new); n += 1; i += m
        else:
            out.append(s[i]); i += 1
    return ''.join(out)

def _strip_pred(chars):
    if chars is None:
        # strip() and split() of the real interpreter (PyPy) differ from str.isspace() and from CPython in these characters
        ws = pred_set('strip', lambda c: (c.isspace() and not '\x1c' <= c <= '\x1f') or c == '\u180e')
        return lambda c: in_class(c, ws)
    return lambda c: s_or(*[eq_ch(c, x) for x in chars])

def lstrip(s, chars=None):
    f = _strip_pred(chars); i = 0
    while i < len(s) and bool(f(s[i])): i += 1
    return s[i:]

def rstrip(s, chars=None):
    f = _strip_pred(chars); i = len(s)
    while i > 0 and bool(f(s[i - 1])): i -= 1
    return s[:i]

def strip(s, chars=None): return lstrip(rstrip(s, chars), chars)

def split(s, sep=None, maxsplit=-1):
    out, i, n = [], 0, len(s)
    if sep is None:
        f = _strip_pred(None)
        while True:
            while i < n and bool(f(s[i])): i += 1
            if i >= n: return out
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(s[i:])); return out
            j = i
            while j < n and not bool(f(s[j])): j += 1
            out.append(s[i:j]); i = j
    if not sep: raise ValueError('empty separator')
    start = 0
    while i + len(sep) <= n:
        if (maxsplit < 0 or len(out) < maxsplit) and bool(eq_at(s, sep, i)):
            out.append(s[start:i]); i += len(sep); start = i
        else: i += 1
    out.append(s[start:])
    return out

def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0: return split(s, sep)
    out = []
    if sep is None:
        f = _strip_pred(None)
        j = len(s)
        while True:
            while j > 0 and bool(f(s[j - 1])): j -= 1
            if j == 0: break
            if len(out) >= maxsplit:
                out.append(lstrip(s[:j])); break
            i = j
            while i > 0 and not bool(f(s[i - 1])): i -= 1
            out.append(s[i:j]); j = i
        return out[::-1]
    if not sep: raise ValueError('empty separator')
    end = len(s); i = end - len(sep)
    while i >= 0:
        if len(out) < maxsplit and bool(eq_at(s, sep, i)):
            out.append(s[i + len(sep):end]); end = i; i -= len(sep)
        else: i -= 1
    out.append(s[:end])
    return out[::-1]

def splitlines(s, keepends=False):
    out, i, start = [], 0, 0
    while i < len(s):
        if bool(in_class(s[i], LINEBREAKS)):
            j = i + 1
            if j < len(s) and bool(eq_ch(s[i], '\r')) and bool(eq_ch(s[j], '\n')): j += 1
            out.append(s[start:j] if keepends else s[start:i])
            start = i = j
        else: i += 1
    if start < len(s): out.append(s[start:])
    return out

def partition(s, sep):
    i = find(s, sep)
    return (s, '', '') if i < 0 else (s[:i], sep, s[i + len(sep):])

def rpartition(s, sep):
    i = rfind(s, sep)
    return ('', '', s) if i < 0 else (s[:i], sep, s[i + len(sep):])

def startswith(s, prefix, start=None, end=None):
    a, b, _ = slice(start, end).indices(len(s))
    if isinstance(prefix, tuple): return s_or(*[startswith(s, p, start, end) for p in prefix])
    if start is not None and start > len(s): return False
    t = s[a:b]
    if len(prefix) > len(t): return False
    return eq(t[:len(prefix)], prefix)

def endswith(s, suffix, start=None, end=None):
    a, b, _ = slice(start, end).indices(len(s))
    if isinstance(suffix, tuple): return s_or(*[endswith(s, p, start, end) for p in suffix])
    if start is not None and start > len(s): return False
    t = s[a:b]
    if len(suffix) > len(t): return False
    return eq(t[len(t) - len(suffix):], suffix)

def removeprefix(s, p): return s[len(p):] if bool(startswith(s, p)) else s
def removesuffix(s, p): return s[:len(s) - len(p)] if p and bool(endswith(s, p)) else s

def _all_in(name):
    def f(s):
        rs = pred_set(name)
        return s_and(*[in_class(c, rs) for c in s]) if s else False
    return f

def isidentifier(s):
    if not s: return False
    a = pred_set('isidentifier'); b = pred_set('idcont', lambda c: ('a' + c).isidentifier())
    return s_and(in_class(s[0], a), *[in_class(c, b) for c in s[1:]])

def isascii(s):
    rs = RangeSet([(0, 127)])
    return s_and(*[in_class(c, rs) for c in s])

def _mapped(name):
    def f(s):
        return ''.join(map_case(c, name) if TOK_LO <= ord(c) <= TOK_HI else getattr(c, name)() for c in s)
    return f

def translate(s, table):
    out = []
    for c in s:
        if TOK_LO <= ord(c) <= TOK_HI and isinstance(table, dict):
            for k in table:
                if bool(eq_ch(c, chr(k))):
                    v = table[k]
                    out.append('' if v is None else chr(v) if isinstance(v, int) else v)
                    break
            else: out.append(c)
        elif TOK_LO <= ord(c) <= TOK_HI: out.append(conc_tok(c).translate(table))
        else: out.append(c.translate(table))
    return ''.join(out)

def expandtabs(s, tabsize=8):
    out, col = [], 0
    for c in s:
        if bool(eq_ch(c, '\t')):
            if tabsize > 0:
                k = tabsize - col % tabsize; out.append(' ' * k); col += k
        else:
            out.append(c)
            col = 0 if bool(s_or(eq_ch(c, '\n'), eq_ch(c, '\r'))) else col + 1
    return ''.join(out)

def capitalize(s):
    return METHODS['upper'](s[:1]) + METHODS['lower'](s[1:]) if not has_tok(s[:1]) else conc(s[:1]).capitalize() + METHODS['lower'](s[1:])

def zfill(s, w):
    if len(s) >= w: return s
    if s and bool(s_or(eq_ch(s[0], '+'), eq_ch(s[0], '-'))): return s[0] + '0' * (w - len(s)) + s[1:]
    return '0' * (w - len(s)) + s

def fmt_template(s):
    """A format template: tokens that may be format characters are decided first."""
    return s

def format_(s, *a, **k):
    for c in s:
        if TOK_LO <= ord(c) <= TOK_HI and bool(s_or(eq_ch(c, '{'), eq_ch(c, '}'))): s = s.replace(c, conc_tok(c))
    return s.format(*a, **k)

def percent(s, arg):
    for c in s:
        if TOK_LO <= ord(c) <= TOK_HI and bool(eq_ch(c, '%')): s = s.replace(c, '%')
    return s % arg

METHODS = dict(find=find, rfind=rfind, index=index, rindex=rindex, count=count, replace=replace, lstrip=lstrip, rstrip=rstrip,
    strip=strip, split=split, rsplit=rsplit, splitlines=splitlines, partition=partition, rpartition=rpartition,
    startswith=startswith, endswith=endswith, removeprefix=removeprefix, removesuffix=removesuffix,
    isidentifier=isidentifier, isascii=isascii, translate=translate, expandtabs=expandtabs, capitalize=capitalize, zfill=zfill,
    format=format_, __contains__=contains, __eq__=eq)
for _n in 'isspace isdigit isdecimal isnumeric isalpha isalnum isprintable'.split(): METHODS[_n] = _all_in(_n)
for _n in 'lower upper casefold swapcase'.split(): METHODS[_n] = _mapped(_n)
METHODS['__ne__'] = lambda a, b: s_not(eq(a, b))

# methods that never look at the characters
PARAMETRIC = {'join', 'ljust', 'rjust', 'center', '__len__', '__getitem__', '__add__', '__mul__', '__iter__', '__str__', '__rmul__'}

def method(s, name, args, kwargs):
    f = METHODS.get(name)
    if f is not None:
        try: return f(s, *args, **kwargs)
        except TypeError: raise
    if name in PARAMETRIC: return getattr(s, name)(*args, **kwargs)
    # anything else: concrete values
    core.PATH.covers.add('~concretised: str.%s' % name)
    return getattr(conc(s), name)(*[conc(a) if type(a) is str else a for a in args], **kwargs)

# ---------------------------------------------------------------------------------------------------------------- numbers

def _digit_runs():
    rs = pred_set('isdecimal')
    out = []
    for a, b in rs.r:
        c = a
        while c <= b:                                   # runs of ten digits
            v = unicodedata.decimal(chr(c))
            out.append((c, min(b, c + 9 - v), v)); c += 10 - v
    return out

def to_int(s, *base):
    """int(s) of a string with tokens."""
    if base and base[0] != 10: return int(conc(s), *base)
    t = strip(s)
    sign = 1
    if t and bool(s_or(eq_ch(t[0], '-'), eq_ch(t[0], '+'))):
        if bool(eq_ch(t[0], '-')): sign = -1
        t = t[1:]
    dec = pred_set('isdecimal')
    val = z3.IntVal(0); last_digit = False
    p = core.PATH
    for c in t:
        if bool(in_class(c, dec)):
            e = p.expr_of(c)
            d = p.doms.get(c)
            if not (TOK_LO <= ord(c) <= TOK_HI): v = z3.IntVal(unicodedata.decimal(c))
            else:
                v = None
                for a, b, v0 in _digit_runs():
                    if d is not None and not (d & RangeSet([(a, b)])): continue
                    v = (e - a + v0) if v is None else z3.If(z3.And(e >= a, e <= b), e - a + v0, v)
            val = val * 10 + v; last_digit = True
        elif last_digit and bool(eq_ch(c, '_')): last_digit = False
        else: raise ValueError('invalid literal for int() with base 10: %s' % ascii(s))
    if not last_digit: raise ValueError('invalid literal for int() with base 10: %s' % ascii(s))
    return mk_int(val * sign)
