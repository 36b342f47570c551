"""Backtracking regular-expression matcher over strings with tokens, working on the parse tree of the re module."""
import re
import re._parser as sp, re._compiler as sc
from re._constants import *
from . import core
from .core import has_tok, TOK_LO, TOK_HI, TOK_RE
from .ranges import RangeSet
from . import strops
from .strops import in_class, eq_ch

_ALL = None
def all_chars():
    global _ALL
    if _ALL is None: _ALL = ''.join(map(chr, range(0, 0xD800))) + ''.join(map(chr, range(0xE000, 0x110000)))
    return _ALL

_set_cache = {}

def item_set(item, flags, state):
    """RangeSet of the characters matched by a single-character item of a pattern."""
    key = (repr(item), flags)
    rs = _set_cache.get(key)
    if rs is None:
        sub = sp.SubPattern(state, [item])
        p = sp.SubPattern(state, [(MAX_REPEAT, (1, MAXREPEAT, sub))])
        rx = sc.compile(p, flags)
        out = []
        for m in rx.finditer(all_chars()):
            a, b = m.start(), m.end() - 1
            # positions -> code points (surrogates are left out of the string)
            ca = a if a < 0xD800 else a + 0x800
            cb = b if b < 0xD800 else b + 0x800
            if ca < 0xD800 <= cb: out += [(ca, 0xD7FF), (0xE000, cb)]
            else: out.append((ca, cb))
        rs = _set_cache[key] = RangeSet(out)
    return rs

def word_set(): return strops.pred_set('\\w', lambda c, f=re.compile(r'\w').match: bool(f(c)))


class Ctx(object):
    __slots__ = ('s', 'n', 'groups', 'last')
    def __init__(self, s, n): self.s, self.n, self.groups, self.last = s, n, {}, None


class SymPattern(object):
    """Compiled symbolic matcher of a re.Pattern."""

    def __init__(self, rx):
        self.rx = rx
        self.flags = rx.flags
        self.tree = sp.parse(rx.pattern, rx.flags & ~(re.DEBUG))
        self.state = self.tree.state
        self.prog = self.seq(self.tree, self.flags)

    # every node is compiled to a function (ctx, i, k) -> end position or -1, where k(i) is the continuation

    def seq(self, items, flags):
        fs = [self.node(op, av, flags) for op, av in items]
        if len(fs) == 1: return fs[0]
        def run0(c, i, k):
            def fs_run(j, i):
                if j == len(fs): return k(i)
                return fs[j](c, i, lambda i2: fs_run(j + 1, i2))
            return fs_run(0, i)
        need, _ = self.prefix(items, flags)
        if len(need) < 2: return run0
        width = len(need)
        def run(c, i, k):
            # do not ask the solver about the first characters when one of those that follow rules the match out
            w = c.s[i:min(c.n, i + width)]
            if len(w) < width: return -1
            if has_tok(w):
                for ch, classes in zip(w, need):
                    if not any(in_class(ch, f()) is not False for f in classes): return -1
            return run0(c, i, k)
        return run

    def prefix(self, items, flags):
        """(list, whole): classes (thunks) of which the first characters of every match are; whole: the sequence has no more of them."""
        out = []
        for op, av in items:
            if op is AT or op in (ASSERT, ASSERT_NOT): continue
            if op in (LITERAL, NOT_LITERAL, IN, ANY, RANGE, CATEGORY):
                item = (IN, [(op, av)]) if op is CATEGORY else (op, av)
                out.append([lambda item=item: item_set(item, flags, self.state)])
                continue
            if op is SUBPATTERN:
                gid, add, sub, p = av
                sub_, whole = self.prefix(p, (flags | add) & ~sub)
                out += sub_
                if whole: continue
                return out, False
            if op is BRANCH:
                alts = [self.prefix(a, flags) for a in av[1]]
                m = min(len(a) for a, _ in alts)
                for j in range(m): out.append([f for a, _ in alts for f in a[j]])
                if all(whole and len(a) == m for a, whole in alts): continue
                return out, False
            if op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
                lo, hi, p = av
                sub_, whole = self.prefix(p, flags)
                if lo: out += sub_
                return out, False
            return out, False
        return out, True

    def node(self, op, av, flags):
        if op in (LITERAL, NOT_LITERAL, IN, ANY, RANGE, CATEGORY):
            if op is CATEGORY: item = (IN, [(op, av)])
            else: item = (op, av)
            rs = [None]
            def one(c, i, k):
                if i >= c.n: return -1
                if rs[0] is None: rs[0] = item_set(item, flags, self.state)
                if bool(in_class(c.s[i], rs[0])): return k(i + 1)
                return -1
            one.rs = lambda: rs.__setitem__(0, item_set(item, flags, self.state)) or rs[0] if rs[0] is None else rs[0]
            return one
        if op is AT: return self.at(av, flags)
        if op is BRANCH:
            alts = [self.seq(a, flags) for a in av[1]]
            def branch(c, i, k):
                for f in alts:
                    r = f(c, i, k)
                    if r >= 0: return r
                return -1
            return branch
        if op is SUBPATTERN:
            gid, add, sub, p = av
            f = self.seq(p, (flags | add) & ~sub)
            if gid is None: return f
            def group(c, i, k):
                def done(j):
                    old = c.groups.get(gid); oldlast = c.last
                    c.groups[gid] = (i, j); c.last = gid
                    r = k(j)
                    if r < 0:
                        c.last = oldlast
                        if old is None: c.groups.pop(gid, None)
                        else: c.groups[gid] = old
                    return r
                return f(c, i, done)
            return group
        if op in (MAX_REPEAT, MIN_REPEAT, POSSESSIVE_REPEAT):
            lo, hi, p = av
            f = self.seq(p, flags)
            hi = None if hi == MAXREPEAT else hi
            if op is POSSESSIVE_REPEAT:
                g = self.repeat_max(f, lo, hi)
                def poss(c, i, k):
                    j = g(c, i, lambda x: x)
                    return k(j) if j >= 0 else -1
                return poss
            if op is MAX_REPEAT:
                rs = getattr(f, 'rs', None)
                if rs is not None: return self.repeat_class(rs, lo, hi)
                return self.repeat_max(f, lo, hi)
            return self.repeat_min(f, lo, hi)
        if op is ATOMIC_GROUP:
            f = self.seq(av, flags)
            def atomic(c, i, k):
                j = f(c, i, lambda x: x)
                return k(j) if j >= 0 else -1
            return atomic
        if op in (ASSERT, ASSERT_NOT):
            direction, p = av
            f = self.seq(p, flags)
            width = p.getwidth()
            def look(c, i, k):
                if direction > 0: ok = f(c, i, lambda x: x) >= 0
                else:
                    lo, hi = width
                    ok = False
                    if i - lo >= 0: ok = f(c, i - lo, lambda x: x if x == i else -1) >= 0
                if ok != (op is ASSERT): return -1
                return k(i)
            return look
        if op is GROUPREF:
            def ref(c, i, k):
                g = c.groups.get(av)
                if g is None: return -1
                t = c.s[g[0]:g[1]]
                if i + len(t) > c.n: return -1
                if flags & re.IGNORECASE: t = strops.conc(t)
                if bool(strops.eq(c.s[i:i + len(t)], t)): return k(i + len(t))
                return -1
            return ref
        if op is GROUPREF_EXISTS:
            gid, yes, no = av
            fy = self.seq(yes, flags); fn = self.seq(no, flags) if no else (lambda c, i, k: k(i))
            return lambda c, i, k: (fy if c.groups.get(gid) else fn)(c, i, k)
        if op is FAILURE: return lambda c, i, k: -1
        raise core.EngineError('regex construct not supported: %s' % op)

    @staticmethod
    def repeat_class(rs, lo, hi):
        """Greedy repetition of one character class: no recursion."""
        def run(c, i, k):
            r = rs(); s, n = c.s, c.n
            j = i
            lim = n if hi is None else min(n, i + hi)
            while j < lim and bool(in_class(s[j], r)): j += 1
            while j >= i + lo:
                x = k(j)
                if x >= 0: return x
                j -= 1
            return -1
        return run

    @staticmethod
    def repeat_max(f, lo, hi):
        def run(c, i, k):
            def rep(n, i):
                if hi is None or n < hi:
                    r = f(c, i, lambda j: rep(n + 1, j) if j > i or n < lo else -1)
                    if r >= 0: return r
                return k(i) if n >= lo else -1
            return rep(0, i)
        return run

    @staticmethod
    def repeat_min(f, lo, hi):
        def run(c, i, k):
            def rep(n, i):
                if n >= lo:
                    r = k(i)
                    if r >= 0: return r
                if hi is None or n < hi:
                    return f(c, i, lambda j: rep(n + 1, j) if j > i or n < lo else -1)
                return -1
            return rep(0, i)
        return run

    def at(self, av, flags):
        if av is AT_BEGINNING and flags & re.MULTILINE: av = AT_BEGINNING_LINE
        if av is AT_END and flags & re.MULTILINE: av = AT_END_LINE
        def nl(ch): return bool(eq_ch(ch, '\n'))
        def word(ch): return bool(in_class(ch, word_set()))
        if av in (AT_BEGINNING, AT_BEGINNING_STRING): return lambda c, i, k: k(i) if i == 0 else -1
        if av is AT_BEGINNING_LINE: return lambda c, i, k: k(i) if i == 0 or nl(c.s[i - 1]) else -1
        if av is AT_END_STRING: return lambda c, i, k: k(i) if i == c.n else -1
        if av is AT_END: return lambda c, i, k: k(i) if i == c.n or (i == c.n - 1 and nl(c.s[i])) else -1
        if av is AT_END_LINE: return lambda c, i, k: k(i) if i == c.n or nl(c.s[i]) else -1
        if av in (AT_BOUNDARY, AT_NON_BOUNDARY):
            want = av is AT_BOUNDARY
            def bound(c, i, k):
                a = i > 0 and word(c.s[i - 1]); b = i < c.n and word(c.s[i])
                return k(i) if (a != b) == want else -1
            return bound
        raise core.EngineError('regex position not supported: %s' % av)

    # ------------------------------------------------------------------ API of re.Pattern

    def match_at(self, s, pos, endpos=None, full=False):
        n = len(s) if endpos is None else min(endpos, len(s))
        c = Ctx(s, n)
        end = self.prog(c, pos, (lambda i: i if i == n else -1) if full else (lambda i: i))
        if end < 0: return None
        return SymMatch(self.rx, s, pos, end, dict(c.groups), c.last)

    def match(self, s, pos=0, endpos=None): return self.match_at(s, min(pos, len(s)), endpos)
    def fullmatch(self, s, pos=0, endpos=None): return self.match_at(s, min(pos, len(s)), endpos, True)

    def search(self, s, pos=0, endpos=None):
        n = len(s) if endpos is None else min(endpos, len(s))
        for i in range(pos, n + 1):
            m = self.match_at(s, i, endpos)
            if m is not None: return m
        return None

    def finditer(self, s, pos=0, endpos=None):
        n = len(s) if endpos is None else min(endpos, len(s))
        i = pos; last_end = -1; must_advance = False
        while i <= n:
            # after a non-empty match ending at i an empty match at i is allowed; after an empty one at i it is not
            m = None
            j = i
            while j <= n:
                c = Ctx(s, n)
                ok = (lambda e, j=j: -1 if (must_advance and j == i and e == j) else e)
                end = self.prog(c, j, ok)
                if end >= 0: m = SymMatch(self.rx, s, j, end, dict(c.groups), c.last); break
                j += 1
            if m is None: return
            yield m
            must_advance = m.end() == m.start()
            i = m.end()

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            g = m.groups('')
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def sub(self, repl, s, count=0): return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count: break
            out.append(s[i:m.start()])
            out.append(repl(m) if callable(repl) else m.expand(repl))
            i = m.end(); n += 1
        out.append(s[i:])
        return ''.join(x if isinstance(x, str) else str(x) for x in out), n

    def split(self, s, maxsplit=0):
        out, i, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit: break
            out.append(s[i:m.start()]); out.extend(m.groups())
            i = m.end(); n += 1
        out.append(s[i:])
        return out


class SymMatch(object):
    def __init__(self, rx, s, start, end, groups, last):
        self.re, self.string, self._g = rx, s, groups
        self._g[0] = (start, end)
        self.pos, self.endpos, self.lastindex = 0, len(s), last
    def _id(self, g): return self.re.groupindex[g] if isinstance(g, str) else g
    def _check(self, g):
        g = self._id(g)
        if g > self.re.groups: raise IndexError('no such group')
        return g
    def span(self, g=0): return self._g.get(self._check(g), (-1, -1))
    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]
    def _one(self, g):
        r = self._g.get(self._check(g))
        return None if r is None else self.string[r[0]:r[1]]
    def group(self, *gs):
        if not gs: gs = (0,)
        r = tuple(self._one(g) for g in gs)
        return r[0] if len(r) == 1 else r
    __getitem__ = _one
    def groups(self, default=None):
        return tuple(default if (x := self._one(i)) is None else x for i in range(1, self.re.groups + 1))
    def groupdict(self, default=None):
        return {k: default if (x := self._one(i)) is None else x for k, i in self.re.groupindex.items()}
    @property
    def lastgroup(self):
        for k, i in self.re.groupindex.items():
            if i == self.lastindex: return k
    def expand(self, template):
        if '\\' not in template: return template
        out, i = [], 0
        for m in re.finditer(r'\\(?:(\d{1,2})|g<(\w+)>|(.))', template, re.S):
            out.append(template[i:m.start()])
            if m[1] or m[2]:
                g = m[1] or m[2]
                out.append(self._one(int(g) if g.isdigit() else g) or '')
            else:
                out.append({'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', 'f': '\f', 'v': '\v', 'a': '\a', 'b': '\b'}.get(m[3], '\\' + m[3]))
            i = m.end()
        out.append(template[i:])
        return ''.join(out)


_patterns = {}
used = set()                # patterns used on this path (reported, so that a parent process can compile them once)

def sym(rx):
    p = _patterns.get(rx)
    if p is None: p = _patterns[rx] = SymPattern(rx)
    return p

_tokpos = {}
def _tok_span(s):
    """(first, last) token positions in s."""
    r = _tokpos.get(s)
    if r is None:
        ps = [m.start() for m in TOK_RE.finditer(s)]
        if len(_tokpos) > 200: _tokpos.clear()
        r = _tokpos[s] = (ps[0], ps[-1]) if ps else (None, None)
    return r

def pattern_method(rx, name, args, kwargs):
    """Call rx.<name>(...) where some string argument has tokens."""
    if not isinstance(rx.pattern, str): return getattr(rx, name)(*args, **kwargs)
    if name in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split', 'sub', 'subn'):
        subject = args[1] if name in ('sub', 'subn') and len(args) > 1 else (args[0] if name not in ('sub', 'subn') and args else kwargs.get('string'))
        if isinstance(subject, str) and has_tok(subject):
            if name == 'match' and len(args) > 1 and not kwargs:
                pos = args[1]
                if pos > _tok_span(subject)[1] + 1 and len(args) == 2: return rx.match(subject, pos)
            used.add((rx.pattern, rx.flags))
            if 'string' in kwargs: kwargs = dict(kwargs); kwargs.pop('string'); args = ((args[0], subject) if name in ('sub', 'subn') else (subject,)) + tuple(args[2:])
            return getattr(sym(rx), name)(*args, **kwargs)
    return getattr(rx, name)(*args, **kwargs)
