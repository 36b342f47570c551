from checks.common import *
from hypertag.std.builtins import register
from hypertag.std import builtins as std
import itertools

changes, cycle = std.changes, std.cycle

def take(it, n):
    out = []
    for x in it:
        if len(out) == n: break
        out.append(x)
    return out

class Seq(object):
    """An iterable that is neither a sequence nor an iterator; counts how many items were taken."""
    def __init__(self, items): self.items = items; self.taken = 0
    def __iter__(self):
        for x in self.items:
            self.taken += 1
            yield x

KINDS = ['list', 'tuple', 'str', 'gen', 'iter', 'iterable', 'dict', 'map']

def make(kind, items, text):
    if kind == 'list': return list(items)
    if kind == 'tuple': return tuple(items)
    if kind == 'str': return text
    if kind == 'gen': return (x for x in items)
    if kind == 'iter': return iter(items)
    if kind == 'iterable': return Seq(items)
    if kind == 'dict': return {i: x for i, x in enumerate(items)}
    return map(lambda x: x, items)

def items_of(kind, items): return list(range(len(items))) if kind == 'dict' else list(items)

# ---------------------------------------------------------------------------- changes

def ref_changes(items, first):
    return [(items[i], first if i == 0 else items[i] != items[i - 1]) for i in range(len(items))]

def same(a, b):
    return len(a) == len(b) and all([len(a[i]) == 2 and a[i][0] == b[i][0] and type(a[i][1]) == type(b[i][1]) and a[i][1] == b[i][1] for i in range(len(a))])

FIRST = [None, (True,), (False,), ('f',), (None,), (7,)]         # None: not given

@harness(quick=prod(kind=KINDS, n=[4]), thorough=prod(kind=KINDS, n=[7]), bounds='sequences of 0 to n symbolic characters, of eight kinds of iterables, six values of first, given by position or name')
def changes_chars(S, kind, n):
    s = S.string('s', n, RangeSet.of('ab') if n > 5 else VAL)
    f = FIRST[S.pick('first', len(FIRST))]
    how = S.pick('how', 2)
    it = make(kind, list(s), s)
    r = changes(it) if f is None else changes(it, f[0]) if how else changes(it, first=f[0])
    S.check(iter(r) is r or isinstance(r, list), 'a stream', '')
    r = list(r)
    want = ref_changes(items_of(kind, list(s)), True if f is None else f[0])
    S.check(same(r, want), 'pairs of items and changes', lambda: '%r %r got %r want %r' % (kind, s, r, want))

@harness(quick=[{'n': 4}], thorough=[{'n': 6}], bounds='sequences of n symbolic integers, and of values of different types (None, empty ones, equal ones of different types, lists of symbolic integers)')
def changes_values(S, n):
    x = [S.int('i%d' % i, -3, 3) for i in range(n)]
    r = list(changes(x))
    S.check(same(r, ref_changes(x, True)), 'integers', lambda: repr((x, r)))
    mixed = [None, x[0], None, None, '', x[1], [x[0]], [x[1]], (x[0],), False, 0, 0.0, {'k': x[0]}, {'k': x[1]}, 'a', 'a']
    k, m = S.pick('from', len(mixed)), S.pick('step', 3) + 1
    seq = mixed[k:] + mixed[:k]
    seq = seq[::m]
    r = list(changes(seq, first=False))
    S.check(same(r, ref_changes(seq, False)), 'any values', lambda: repr((seq, r)))

@harness(quick=[{}], bounds='endless sequences and items taken only when needed, two streams at once, the first four pairs')
def changes_lazy(S):
    x = S.text('x', 4, VAL)
    def endless():
        while True:
            for c in x: yield c
    r = take(changes(endless()), 5)
    S.check(same(r, ref_changes(list(x) + [x[0]], True)), 'endless', lambda: repr(r))
    seq = Seq(list(x))
    g = iter(changes(seq))
    for i in range(4):
        S.check(seq.taken <= i + 1, 'no item is taken too early', '')
        p = next(g)
        S.check(p == ref_changes(list(x), True)[i], 'pair by pair', lambda: repr(p))
    a, b = iter(changes(x)), iter(changes(x[::-1], False))
    out = []
    for i in range(4): out.append(next(a)); out.append(next(b))
    S.check(same(out[::2], ref_changes(list(x), True)) and same(out[1::2], ref_changes(list(x[::-1]), False)), 'streams do not interfere', lambda: repr(out))

# ---------------------------------------------------------------------------- cycle

def ref_cycle(seqs, stop, limit):
    if not seqs: return []
    if any([len(s) == 0 for s in seqs]): return []
    n = len(seqs[0]) if stop == 'first' else max([len(s) for s in seqs]) if stop == 'longest' else limit
    return [tuple([s[i % len(s)] for s in seqs]) for i in range(min(n, limit))]

def eq(a, b): return len(a) == len(b) and all([type(a[i]) is tuple and len(a[i]) == len(b[i]) and all([a[i][j] == b[i][j] for j in range(len(a[i]))]) for i in range(len(a))])

STOPS = [None, 'first', 'longest', False]

@harness(quick=prod(kind=KINDS, k=[2], n=[3]) + [{'kind': None, 'k': 3, 'n': 2}], thorough=prod(kind=KINDS, k=[1, 2], n=[5]) + [{'kind': None, 'k': 3, 'n': 3}, {'kind': None, 'k': 4, 'n': 2}],
         bounds='k sequences of 0 to n symbolic characters each, of eight kinds of iterables; stop default, first, longest or False')
def cycle_chars(S, kind, k, n):
    st = STOPS[S.pick('stop', len(STOPS))]
    seqs, given = [], []
    for i in range(k):
        s = S.string('s%d' % i, n, VAL)
        kd = (kind if i == 0 else KINDS[S.pick('kind%d' % i, 4) * 2 + 1] if k < 3 else 'gen') if kind else KINDS[S.pick('kind%d' % i, 2) * 3]
        seqs.append(items_of(kd, list(s)))
        given.append(make(kd, list(s), s))
    limit = 2 * n + 3
    r = take(cycle(*given) if st is None else cycle(*given, stop=st), limit)
    want = ref_cycle(seqs, st if st is not None else 'first', limit)
    S.check(eq(r, want), 'tuples of items', lambda: '%r stop=%r got %r want %r' % (seqs, st, r, want))

@harness(quick=[{}], bounds='no sequence, one sequence, the same sequence twice, an endless sequence after the first, wrong arguments; the given sequences are not changed')
def cycle_special(S):
    s = S.string('s', 3, VAL)
    for st in STOPS:
        kw = {} if st is None else {'stop': st}
        S.check(list(cycle(**kw)) == [], 'no sequences: an empty stream', '')
        L = list(s)
        r = take(cycle(L, **kw), 5)
        S.check(eq(r, ref_cycle([list(s)], st or ('first' if st is None else False), 5)), 'one sequence', lambda: repr((s, st, r)))
        r = take(cycle(L, L, s, **kw), 5)
        S.check(eq(r, ref_cycle([list(s)] * 3, st or ('first' if st is None else False), 5)), 'the same sequence again', lambda: repr((s, st, r)))
        S.check(L == list(s), 'the sequence is not changed', '')
    def endless(x):
        while True: yield x
    for st in [None, 'first', False]:
        kw = {} if st is None else {'stop': st}
        r = take(cycle(list(s), endless('e'), itertools.count(), **kw), 5)
        want = [] if not len(s) else [(s[i % len(s)], 'e', i) for i in range(5 if st is False else min(5, len(s)))]
        S.check(eq(r, want), 'an endless sequence', lambda: repr((s, st, r)))
    for bad in [lambda: list(cycle([1], length=3)), lambda: list(cycle([1], stops='first')), lambda: take(cycle(5), 1), lambda: take(cycle([1], None), 1), lambda: take(cycle(5, stop='longest'), 1), lambda: list(changes(5)), lambda: list(changes([1], 1, 2)), lambda: list(changes([1], start=1))]:
        S.check(S.run(bad)[0] == 'err', 'wrong arguments are an error', '')

# ---------------------------------------------------------------------------- in scripts

@harness(quick=[{'n': 3}], thorough=[{'n': 5}], bounds='loops of scripts over changes and cycle of values and literals, n symbolic characters')
def scripts(S, n):
    s = S.string('s', n, CH - WS)
    st = STOPS[S.pick('stop', 3)]
    f = S.pick('first', 3)
    arg = ['', ', first=False', ', first="F"'][f]
    out = render('context $s\nfor v, change in changes(s%s)\n  p new={change}\n    / $v\nelse\n  | none\n' % arg, s=s)
    want = ''
    for v, c in ref_changes(list(s), [True, False, 'F'][f]):
        want += '<p' + (' new' if c is True else '' if c is False else ' new="F"') + '>\n  ' + v + '\n</p>\n'
    if not len(s): want = 'none\n'
    S.check(out == want, 'changes in a loop', lambda: 'got %r want %r' % (out, want))
    out = render('context $s\nfor a, b, c in cycle(s, [1,2], "xyz"%s)\n  | $b$c\n  / {a}\n| end\n' % ('' if st is None else ', stop="%s"' % st), s=s)
    want = ''
    for a, b, c in ref_cycle([list(s), [1, 2], 'xyz'], st or 'first', 99): want += str(b) + c + '\n' + a + '\n'
    S.check(out == want + 'end\n', 'cycle in a loop', lambda: 'got %r want %r' % (out, want))
    out = render('context $s\nfrom hypertag.builtins import $cycle as K, $changes\nfor (i, col), ch in changes(K(s, ["odd", "even"]))\n  td class=$col / $i\n', s=s)
    want = ''.join(['<td class="' + ['odd', 'even'][i % 2] + '">' + s[i] + '</td>\n' for i in range(len(s))])
    S.check(out == want, 'imported', lambda: 'got %r want %r' % (out, want))
    # the streams as values
    out = render('context $s\n$k = s : cycle("ab") : list\n| $len(k)\n$m = s : changes(first=False) : list\n| $len(m)\n', s=s)
    S.check(out == str(len(s)) + '\n' + str(len(s)) + '\n', 'as filters', lambda: repr(out))
