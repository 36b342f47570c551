from checks.common import *
from hypertag.core.structs import MultiDict, Stack, Context, State

NAMES = RangeSet.of('abc')

def find(ref, name):
    """Latest binding of the name in the reference: a plain list of pairs."""
    for n, v in reversed(ref):
        if n == name: return (v,)
    return None

def latest(ref):
    out = []
    for i in range(len(ref)):
        if not any([ref[i][0] == n for n, _ in ref[i + 1:]]): out.append(ref[i])
    return out

def compare(S, md, ref, names, d):
    S.check(md.position() == len(ref), 'position', d)
    for n in names:
        want = find(ref, n)
        S.check((n in md) == (want is not None), 'membership', d)
        got = S.run(lambda: md[n])
        if want is None:
            S.check(got[0] == 'err' and isinstance(got[1], KeyError), 'no binding', d)
            S.check(md.get(n) is None and md.get(n, 'D') == 'D', 'default', d)
        else:
            S.check(got[0] == 'ok' and got[1] is want[0], 'latest binding', d)
            S.check(md.get(n, 'D') is want[0], 'latest binding', d)
    cur = latest(ref)
    items = list(md.items())
    keys, values = list(md.keys()), list(md.values())
    S.check(len(items) == len(cur) and len(keys) == len(cur) and len(values) == len(cur), 'number of names', d)
    for n, v in cur: S.check(any([n == a and v is b for a, b in items]), 'items', d)
    S.check(all([items[i][0] == keys[i] and items[i][1] is values[i] for i in range(len(items))]), 'keys, values and items agree', d)

class Val(object):
    """A value: compared by identity"""
    def __init__(self, n): self.n = n
    def __repr__(self): return 'v%d' % self.n

def value(i): return None if i % 3 == 2 else Val(i)

OPS = ['push', 'pop', 'pushall', 'pushnew', 'save', 'reset', 'undo', 'copy']

def step(S, i, op, md, ref, saved, names, trace, others):
    """One operation on md and on the reference; returns the new pair."""
    nm = lambda k: S.text('n%d.%d' % (i, k), 1, LOWER)
    if op == 'push':
        n = nm(0)
        v = value(i)
        md.push(n, v)
        ref = ref + [(n, v)]
        trace.append(('push', n))
    elif op == 'pop':
        r = S.run(md.pop)
        if not ref: S.check(r[0] == 'err', 'pop of the empty stack', lambda: repr(trace))
        else:
            S.check(r[0] == 'ok' and r[1][0] == ref[-1][0] and r[1][1] is ref[-1][1], 'pop returns the last binding', lambda: repr((trace, r)))
            ref = ref[:-1]
        trace.append(('pop',))
    elif op == 'pushall' or op == 'pushnew':
        pairs = {}
        for k in range(2): pairs[nm(k) if k == i % 2 else 'm'] = value(i * 10 + k)     # a symbolic name before or after a fixed one
        f = md.pushall if op == 'pushall' else md.pushnew
        f(pairs)
        for n, v in pairs.items():
            if op == 'pushall' or find(ref, n) is None: ref = ref + [(n, v)]
        trace.append((op, list(pairs)))
    elif op == 'save':
        saved.append((md.position(), len(ref)))
        trace.append(('save',))
    elif op == 'reset':
        if saved:
            p, k = saved[-1]
            r = S.run(md.reset, p)
            if k > len(ref): S.check(r[0] == 'err', 'a position above the top', lambda: repr(trace))
            else:
                S.check(r[0] == 'ok', 'reset', lambda: repr((trace, r)))
                ref = ref[:k]
        else:
            md.reset(0)
            ref = []
        trace.append(('reset',))
    elif op == 'undo':
        if ref:
            md.reset(md.position() - 1)
            ref = ref[:-1]
        trace.append(('undo',))
    else:
        others.append((md, ref))
        md = md.copy()
        trace.append(('copy',))
    return md, ref

def all_equal(S, md, ref, names, others, trace):
    compare(S, md, ref, names, lambda: '%r expected %r, is %r' % (trace, ref, md.stack))
    for m, r in others: compare(S, m, r, names, lambda: 'original of a copy: %r expected %r, is %r' % (trace, r, m.stack))

@harness(quick=[{'n': 3, 'op': o} for o in range(len(OPS))] + [{'n': 4, 'op': 0, 'second': o} for o in range(1, 8)], thorough=[{'n': 4, 'op': o} for o in range(len(OPS))],
         bounds='all sequences of three operations, and of four operations the first of which is push (thorough: all of four) with symbolic names in every pattern of coincidence; after the sequence the table and all originals of copies are compared with a plain list of bindings', outside='longer sequences')
def sequences(S, n, op, second=None):
    names = None
    md, ref, saved, trace, others = MultiDict(), [], [], [], []
    for i in range(n):
        o = OPS[op] if i == 0 else OPS[second] if i == 1 and second is not None else OPS[S.pick('op%d' % i, len(OPS))]
        md, ref = step(S, i, o, md, ref, saved, names, trace, others)
    all_equal(S, md, ref, [S.text('query', 1, LOWER)], others, trace)

@harness(quick=[{'n': 5, 'op': o} for o in range(4)], thorough=[{'n': 7, 'op': o} for o in range(4)], bounds='all sequences of five (thorough: seven) push, pop, save and reset operations with symbolic names, compared after every operation', outside='longer sequences')
def nested(S, n, op):
    names = None
    ops = ['push', 'pop', 'save', 'reset']
    md, ref, saved, trace, others = MultiDict(), [], [], [], []
    for i in range(n):
        o = ops[op] if i == 0 else ops[S.pick('op%d' % i, 4)]
        md, ref = step(S, i, o, md, ref, saved, names, trace, others)
    all_equal(S, md, ref, [S.text('query', 1, LOWER)], others, trace)

@harness(quick=[{'n': 3}], thorough=[{'n': 5}], bounds='three (thorough: five) pushes of symbolic names, in every pattern of coincidence, in one to three groups, then resets to every position and pops', outside='more bindings')
def aliasing(S, n):
    names = [S.text('n%d' % i, 1, RangeSet.of('abcdefgh')) for i in range(n)]
    c = Context()
    ref, pos = [], []
    for i in range(n):
        pos.append(c.position())
        v = S.int('v%d' % i)
        c.push(names[i], v)
        ref.append((names[i], v))
    dup = c.copy()
    d = lambda: repr((names, c.stack, ref))
    k = S.pick('reset', n + 1)
    if k < n: c.reset(pos[k])
    ref2 = ref[:k]
    compare(S, c, ref2, names, d)
    S.check([v for v in c.slots(0)] == [v for _, v in ref2], 'slots', d)
    q = S.text('q', 1, RangeSet.of('abcdefghij'))
    compare(S, c, ref2, [q], d)
    compare(S, dup, ref, names, d)
    start = S.pick('start', n)
    got = dup.asdict(start)
    want = {}
    for nm, v in ref[start:]: want[nm] = v
    S.check(got == want and list(got) == list(want), 'asdict', lambda: repr((got, want)))
    while ref:
        r = dup.pop()
        S.check(r[0] == ref[-1][0] and r[1] is ref[-1][1], 'pop returns the last binding', d)
        ref.pop()
        compare(S, dup, ref, names, d)
    S.check(S.run(dup.pop)[0] == 'err', 'pop of the empty stack')

@harness(quick=[{'n': 3}], thorough=[{'n': 5}], bounds='all sequences of three (thorough: five) operations of Stack: push, pushall, reset, indent, dedent, copy', outside='longer sequences')
def stacks(S, n):
    st, ref, ind, others, trace = Stack(), [], '\n', [], []
    base = st.indentation
    for i in range(n):
        op = S.choice('op%d' % i, ['push', 'pushall', 'reset', 'indent', 'tab', 'dedent', 'copy', 'size'])
        trace.append(op)
        if op == 'push':
            S.check(st.push(i) == len(ref), 'index of the new item', lambda: repr(trace))
            ref = ref + [i]
        elif op == 'pushall':
            st.pushall([i, i + 100])
            ref = ref + [i, i + 100]
        elif op == 'reset':
            k = S.pick('k%d' % i, 3)
            S.assume(k <= len(ref))
            st.reset(k)
            ref = ref[:k]
        elif op == 'size':
            S.assume(len(ref) > 0)
            st.size = len(ref) - 1
            ref = ref[:-1]
        elif op == 'indent' or op == 'tab':
            c = ' ' if op == 'indent' else '\t'
            st.indent(c)
            ind += c
        elif op == 'dedent':
            S.assume(len(ind) > 1)
            c = S.choice('c%d' % i, ' \t')
            r = S.run(st.dedent, c)
            S.check((r[0] == 'ok') == (ind[-1] == c), 'dedent of another character is refused', lambda: repr((trace, r)))
            if r[0] == 'ok': ind = ind[:-1]
        else:
            others.append((st, ref, ind))
            st = st.copy()
    for s, r, d in others + [(st, ref, ind)]:
        S.check(list(s) == r and s.position() == len(r) and s.size == len(r), 'contents', lambda: repr((trace, list(s), r)))
        S.check(s.indentation == d, 'indentation', lambda: repr((trace, s.indentation, d)))
        S.check(all([s.get(i) == r[i] for i in range(len(r))]), 'items', lambda: repr(trace))

@harness(quick=[{'n': 3}], thorough=[{'n': 5}], bounds='all sequences of three (thorough: five) operations of State: assignment, clear, update, copy; two slots', outside='longer sequences')
def states(S, n):
    slots = ['s', 't']
    st, ref, others, trace = State(), {}, [], []
    for i in range(n):
        op = S.choice('op%d' % i, ['set', 'clear', 'clearall', 'update', 'copy', 'new'])
        trace.append(op)
        k = slots[S.pick('k%d' % i, 2)] if op in ('set', 'clear', 'update') else None
        if op == 'set':
            st[k] = i
            ref = dict(ref)
            ref[k] = i
        elif op == 'clear' or op == 'clearall':
            ks = [k] if k else slots
            st.clear(ks)
            ref = {a: b for a, b in ref.items() if a not in ks}
        elif op == 'update':
            st.update({k: i, 'u': i})
            ref = dict(ref)
            ref.update({k: i, 'u': i})
        elif op == 'copy':
            others.append((st, ref))
            st = st.copy()
        else:
            others.append((st, ref))
            st = State(st.values)
    for s, r in others + [(st, ref)]:
        for k in slots + ['u', 'w']:
            S.check((k in s) == (k in r), 'assigned', lambda: repr((trace, s.values, r)))
            if k in r: S.check(s[k] == r[k], 'value', lambda: repr((trace, s.values, r)))
