from checks.common import *
from hypertag.core.errors import NameErrorEx, UnboundLocalEx, UndefinedTagEx

# Reference semantics.  A program is a list of statements:
#   ['set', name, value]   ['ref', name]   ['def', tag, statements, attributes]   ['use', tag, statements or None]   ['block', kind, statements]
# Names are (usually) symbolic identifiers, so that one path stands for all scripts with the same pattern of coinciding names.

NAMEERR, UNBOUND = 'name error', 'unbound'

class Slot(object):
    def __init__(self, outer): self.outer, self.bound, self.value = outer, False, None
    def get(self):
        if self.bound: return self.value
        if self.outer is None: raise Stop(UNBOUND)
        return self.outer.get()

class Stop(Exception): pass

def lookup(scopes, name):
    for scope in reversed(scopes):
        for n, slot in reversed(scope):
            if n == name: return slot
    return None

# kinds of blocks: heading, own scope?, how many times the body is executed
KINDS = {
    'div': ('div', True, 1), 'null': ('.', True, 1), 'chain': ('p : b', True, 1), 'body': ('H', True, 1), 'twice': ('H2', True, 1), 'none': ('H0', True, 1),
    'if': ('if 1', False, 1), 'skip': ('if 0', False, 0), 'for': ('for j_ in [1,2]', False, 2), 'empty': ('for j_ in []', False, 0),
    'try': ('try', False, 1), 'else': ('if 0 | z\n@else', False, 1), 'elif': ('if 0 | z\n@elif 1', False, 1), 'unelse': ('if 1 | z\n@else', False, 0),
}
COPIES = {'twice': 2, 'none': 0}

class Ref(object):
    """Resolves (analysis) and then executes a program; script() gives its source."""
    def __init__(self, prog):
        self.prog = prog
        self.slots = {}

    def resolve(self, prog, vars, tags):
        """Replaces names with slots, in order of the script."""
        out = []
        for st in prog:
            k = st[0]
            if k == 'set':
                slot = None
                for n, s in vars[-1]:
                    if n == st[1]: slot = s
                if slot is None:
                    slot = Slot(lookup(vars, st[1]))
                    vars[-1].append((st[1], slot))
                out.append(('set', slot, st[2]))
            elif k == 'inc':
                slot = lookup(vars, st[1])
                if slot is None: raise Stop(NAMEERR)
                mine = None
                for n, s in vars[-1]:
                    if n == st[1]: mine = s
                if mine is None:
                    mine = Slot(slot)
                    vars[-1].append((st[1], mine))
                out.append(('inc', mine, slot))
            elif k == 'ref':
                out.append(('ref', self.known(vars, st[1])))
            elif k == 'setx':                                           # $ target = source + 50
                src = self.known(vars, st[2])
                out.append(('setx', self.target(vars, st[1]), src))
            elif k == 'loop':                                           # for target in [source, source + 7]
                src = self.known(vars, st[2])
                mine = self.target(vars, st[1])
                out.append(('loop', mine, src, self.resolve(st[3], vars, tags)))
            elif k == 'cond':                                           # if source > 0
                out.append(('cond', self.known(vars, st[1]), self.resolve(st[2], vars, tags)))
            elif k == 'arg':                                            # T {source} with a body
                src = self.known(vars, st[1])
                body, mine = self.inner(st[2], vars, tags, [])
                out.append(('arg', src, body, mine))
            elif k == 'defx':                                           # % tag attr={source}
                src = self.known(vars, st[3][1])
                scope = [(st[3][0], Slot(None))]
                body, mine = self.inner(st[2], vars, tags, scope)
                tags[-1].append((st[1], ('hypertag', body, mine, [(scope[0][1], src)])))
            elif k == 'def':
                scope = [(n, Slot(None)) for n, _ in st[3]]
                attrs = [(s, v) for (_, s), (_, v) in zip(scope, st[3])]
                body, mine = self.inner(st[2], vars, tags, scope)
                h = ('hypertag', body, mine, attrs)
                tags[-1].append((st[1], h))
            elif k == 'use':
                h = lookup(tags, st[1])
                if h is None: raise Stop(NAMEERR)
                out.append(('use', h))
            else:
                head, own, times = KINDS[st[1]]
                if own: body, mine = self.inner(st[2], vars, tags, [])
                else:   body, mine = self.resolve(st[2], vars, tags), []
                out.append(('block', times, body, mine, COPIES.get(st[1], 1), st[1] == 'try'))
        return out

    def known(self, vars, name):
        slot = lookup(vars, name)
        if slot is None: raise Stop(NAMEERR)
        return slot

    def target(self, vars, name):
        for n, s in vars[-1]:
            if n == name: return s
        slot = Slot(lookup(vars, name))
        vars[-1].append((name, slot))
        return slot

    def inner(self, prog, vars, tags, scope):
        body = self.resolve(prog, vars + [scope], tags + [[]])
        return body, [s for _, s in scope]

    def run(self, prog):
        out = []
        for st in prog:
            k = st[0]
            if k == 'set': st[1].bound, st[1].value = True, st[2]
            elif k == 'inc': v = st[2].get(); st[1].bound, st[1].value = True, v + 100
            elif k == 'ref': out.append('=' + str(st[1].get()))
            elif k == 'use':
                _, body, mine, attrs = st[1]
                for s in mine: s.bound = False
                for s, v in attrs: s.bound, s.value = True, v.get() if isinstance(v, Slot) else v
                out.extend(self.run(body))
            elif k == 'setx': v = st[2].get(); st[1].bound, st[1].value = True, v + 50
            elif k == 'loop':
                v = st[2].get()
                for x in [v, v + 7]:
                    st[1].bound, st[1].value = True, x
                    out.extend(self.run(st[3]))
            elif k == 'cond':
                if st[1].get() > 0: out.extend(self.run(st[2]))
            elif k == 'arg':
                for s in st[3]: s.bound = False
                v = st[1].get()
                b = self.run(st[2])
                out.append('=' + str(v))
                out.extend(b)
            else:
                _, times, body, mine, copies, guarded = st
                for i in range(times):
                    for s in mine: s.bound = False
                    try: out.extend(self.run(body) * copies)
                    except Stop:
                        if not guarded: raise
        return out

    def outcome(self):
        try: return ('ok', self.run(self.resolve(self.prog, [[]], [[]])))
        except Stop as ex: return ('err', ex.args[0])

def script(prog, ind=''):
    out = ''
    for st in prog:
        k = st[0]
        if k == 'set':   out = out + ind + '$ ' + st[1] + ' = ' + str(st[2]) + '\n'
        elif k == 'inc': out = out + ind + '$ ' + st[1] + ' += 100\n'
        elif k == 'ref': out = out + ind + '| =$' + st[1] + '\n'
        elif k == 'def': out = out + ind + '% ' + st[1] + ''.join([' ' + n + '=' + str(v) for n, v in st[3]]) + '\n' + (script(st[2], ind + '  ') or ind + '  pass\n')
        elif k == 'use': out = out + ind + st[1] + '\n'
        elif k == 'setx': out = out + ind + '$ ' + st[1] + ' = ' + st[2] + ' + 50\n'
        elif k == 'loop': out = out + ind + 'for ' + st[1] + ' in [' + st[2] + ', ' + st[2] + ' + 7]\n' + (script(st[3], ind + '  ') or ind + '  pass\n')
        elif k == 'cond': out = out + ind + 'if ' + st[1] + ' > 0\n' + (script(st[2], ind + '  ') or ind + '  pass\n')
        elif k == 'arg': out = out + ind + 'T_ {' + st[1] + '}\n' + script(st[2], ind + '  ')
        elif k == 'defx': out = out + ind + '% ' + st[1] + ' ' + st[3][0] + '={' + st[3][1] + '}\n' + (script(st[2], ind + '  ') or ind + '  pass\n')
        else: out = out + ind + KINDS[st[1]][0].replace('@', ind) + '\n' + (script(st[2], ind + '  ') or ind + '  pass\n')
    return out

PROLOG = '% H @b_\n  @b_\n% H2 @b_\n  @b_\n  @b_\n% H0 @b_\n  | -\n% T_ @b_ z_\n  | =$z_\n  @b_\n'

def decide(S, prog, extra=''):
    want = Ref(prog).outcome()
    calls = []
    def probe(): calls.append(1); return ''
    s = 'context $probe\n' + PROLOG + '$ probe()\n' + extra + script(prog)
    r = S.run(render, s, probe=probe)
    if r[0] == 'ok':
        got = ('ok', [l.strip() for l in r[1].split('\n') if l.strip()[:1] == '='])
    elif isinstance(r[1], (NameErrorEx, UndefinedTagEx)):
        got = ('err', NAMEERR if not isinstance(r[1], UnboundLocalEx) else UNBOUND)
        if got[1] == NAMEERR: S.check(not calls, 'a script with an undefined name is executed', lambda: s)
    elif isinstance(r[1], UnboundLocalEx): got = ('err', UNBOUND)
    else: raise r[1]
    S.observe('out', got)
    S.check(got == want, 'resolution of names', lambda: '\n%s\n got %r\n expected %r' % (s[len(PROLOG):], got, want))

SCOPED  = ['div', 'null', 'chain', 'body', 'twice', 'none']
CONTROL = ['if', 'skip', 'for', 'empty', 'try', 'else', 'elif', 'unelse']


@harness(quick=[{'names': 5}], bounds='one block of any kind; assignments before and inside, references inside (before/after the assignment) and after it; all coincidences of the names')
def block(S, names):
    a, b, c, d = [S.ident('n%d' % i) for i in range(4)]
    e = S.ident('n4') if names == 5 else a
    kind = S.choice('kind', SCOPED + CONTROL)
    pos = S.pick('pos', 2)
    prog = [['set', a, 1], ['block', kind, ([['ref', b]] if pos else []) + [['set', c, 2], ['ref', b if not pos else e]]], ['ref', d]]
    decide(S, prog)

@harness(quick=[{}], bounds='statements that read one variable and declare another (assignment, for, attribute, default value, condition) in a block of any kind between an assignment and a reference; all coincidences of the names')
def flows(S):
    a, b, c, d = [S.ident('n%d' % i) for i in range(4)]
    form = S.choice('form', ['setx', 'loop', 'cond', 'arg', 'defx'])
    kind = S.choice('kind', ['div', 'body', 'twice'] + (['if', 'for', 'skip', 'else'] if form != 'defx' else []))
    mid = {'setx': [['setx', b, c], ['ref', d]], 'loop': [['loop', b, c, [['ref', d]]], ['ref', b]], 'cond': [['cond', c, [['set', b, 5], ['ref', d]]], ['ref', b]],
           'arg': [['arg', c, [['set', b, 5], ['ref', d]]], ['ref', c]], 'defx': [['defx', 'G', [['ref', d]], (b, c)], ['set', c, 8], ['use', 'G']]}[form]
    decide(S, [['set', a, 1], ['block', kind, mid], ['ref', d]])

@harness(quick=[{'k1': SCOPED + CONTROL, 'k2': SCOPED + CONTROL}],
         bounds='two nested blocks, assignments at each level, references at each level')
def nested(S, k1, k2):
    a, b = S.ident('a'), S.ident('b')
    k1, k2 = S.choice('k1', k1), S.choice('k2', k2)
    prog = [['set', 'x', 1], ['block', k1, [['set', a, 2], ['block', k2, [['set', b, 3], ['ref', 'x']]], ['ref', 'x']]], ['ref', 'x']]
    decide(S, prog)

@harness(quick=[{}], bounds='a reference to any of the names at any place of two nested blocks')
def places(S):
    w = S.ident('w')
    p = S.pick('place', 7)
    k1, k2 = S.choice('k1', ['div', 'if', 'skip', 'body']), S.choice('k2', ['div', 'if', 'skip', 'for'])
    r = lambda i: [['ref', w]] if i == p else []
    prog = (r(0) + [['set', 'x', 1]] + r(1) + [['block', k1, r(2) + [['set', 'y', 2], ['block', k2, r(3) + [['set', 'z', 3], ['set', 'x', 4]] + r(4)]] + r(5)]] + r(6))
    decide(S, prog)

@harness(quick=[{}], bounds='assignments in two control blocks and in one nested in a scoped block, each executed or not')
def conditional(S):
    a, b, c, d = [S.ident('n%d' % i) for i in range(4)]
    f = [S.choice('f%d' % i, ['if', 'skip']) for i in range(3)]
    own = S.choice('own', ['div', 'body', 'if'])
    decide(S, [['block', f[0], [['set', a, 1]]], ['block', f[1], [['set', b, 2]]], ['block', own, [['block', f[2], [['set', c, 3]]], ['ref', d]]]] + ([['ref', d]] if S.flag('after') else []))

@harness(quick=[{}], bounds='a body executed twice, with an assignment executed only once')
def repeated(S):
    a, b, c = S.ident('a'), S.ident('b'), S.ident('c')
    first = S.pick('first', 2)                      # in which iteration
    own = S.choice('own', SCOPED + ['if'])
    s = ('$ ' + a + ' = 5\nfor i_ in [0, 1]\n  ' + KINDS[own][0] + '\n    if i_ == ' + str(first) + '\n      $ ' + b + ' = 7 + i_\n    | =$' + c + '\n')
    r = S.run(render, PROLOG + s)
    local = KINDS[own][1]
    want = []; outer = 5; mine = None
    for i in (0, 1):
        if i == first:
            mine = 7 + i
        elif local: mine = None
        v = mine if (b == c and mine is not None) else (5 if a == c else None)
        if v is None and b == c: want = UNBOUND; break
        if v is None: want = NAMEERR; break
        want.extend(['=%s' % v] * COPIES.get(own, 1))
    if r[0] == 'ok': got = [l.strip() for l in r[1].split('\n') if l.strip()[:1] == '=']
    elif isinstance(r[1], UnboundLocalEx): got = UNBOUND
    elif isinstance(r[1], NameErrorEx): got = NAMEERR
    else: raise r[1]
    S.observe('out', got)
    S.check(got == want, 'assignment in an earlier execution', lambda: '\n%s\n got %r\n expected %r' % (s, got, want))

@harness(quick=[{}], bounds='a hypertag with an attribute, an assignment in its body and references, defined before and used after assignments')
def hypertag(S):
    a, b, c, d = [S.ident('n%d' % i) for i in range(4)]
    inc = S.flag('inc')
    place = S.choice('place', ['top', 'div', 'if', 'body'])
    use = [['use', 'G']]
    if place != 'top': use = [['block', place, [['set', a, 4]] + use]]
    decide(S, [['set', a, 1], ['def', 'G', [['inc' if inc else 'set', b, 2], ['ref', d]], [(c, 3)]]] + use + [['ref', a]])

@harness(quick=[{}], bounds='a variable used in a hypertag but (re)assigned only where the hypertag is used')
def dynamic(S):
    a, b, c = S.ident('a'), S.ident('b'), S.ident('c')
    k = S.choice('k', ['div', 'body', 'if', 'try', 'for'])
    n = S.flag('local')
    defn = [['def', 'G', [['ref', c]], []]]
    prog = [['set', a, 1]]
    if n: prog += [['block', S.choice('kd', ['div', 'body', 'null']), defn + [['set', b, 2], ['block', k, [['set', c, 3], ['use', 'G']]]]]]
    else: prog += defn + [['set', b, 2], ['block', k, [['set', c, 3], ['use', 'G']]]]
    decide(S, prog)

@harness(quick=[{}], bounds='hypertags defined at two levels (all coincidences of names, also with a variable), used inside and after a block')
def tags(S):
    a, b, c = S.ident('a', 2, UPPER), S.ident('b', 2, UPPER), S.ident('c', 2, UPPER)
    v = S.ident('v', 2, UPPER)
    S.assume(c != 'H0' and c != 'H2')
    k = S.choice('k', SCOPED)
    d = lambda n, x: ['def', n, [['set', 'u', x], ['ref', 'u']], []]
    where = S.pick('where', 4)
    u = lambda i: [['use', c]] if where == i else []
    decide(S, [['set', v, 9], d(a, 1)] + u(0) + [['block', k, u(1) + [d(b, 2)] + u(2)]] + u(3) + [['ref', v]])

@harness(quick=[{}], bounds='a hypertag defined inside a hypertag; redefinition in the same block')
def tagdefs(S):
    a, b, c, e = [S.ident(x, 2, UPPER) for x in 'abce']
    d = lambda n, x: ['def', n, [['set', 'u', x], ['ref', 'u']], []]
    out = S.flag('out')
    inner = [d(a, 2), ['use', c]]
    decide(S, [d(a, 1), ['def', b, inner, []], d(c, 3), ['use', e]] if out else [d(a, 1), ['def', b, [d(e, 2), ['use', c]], []], ['use', b]])

@harness(quick=[{}], bounds='names of variables declared by loops, imports and the context, and built-in names, may be reassigned')
def sources(S):
    n = S.choice('n', ['len', 'crop', 'i_', 'ctx', 'pi', 'dom_', 'zz'])
    w = S.choice('w', ['div', 'body', 'if', 'skip', 'for', 'empty'])
    head = 'context $ctx\nfrom math import $pi\nfrom math import $e as dom_\nfor i_ in [8]\n  | a\n'
    known = n != 'zz'
    s = head + '% H @b_\n  @b_\n| =$' + ('n' if False else n) + '\n' if known else head + '% H @b_\n  @b_\n'
    s = s + KINDS[w][0] + '\n  $ ' + n + ' = 5\n  | =$' + n + '\n' + '| =$' + n + '\n'
    r = S.run(render, s, ctx=6)
    if not known and KINDS[w][1]: return S.check(r[0] == 'err' and isinstance(r[1], NameErrorEx), 'a name local to a block is visible outside', lambda: repr(r))
    if not known and KINDS[w][2] == 0: return S.check(r[0] == 'err' and isinstance(r[1], UnboundLocalEx), 'an unassigned variable has a value', lambda: repr(r))
    import math
    before = {'len': len, 'i_': 8, 'ctx': 6, 'pi': math.pi, 'dom_': math.e}
    S.check(r[0] == 'ok', 'reassignment of a declared name fails', lambda: repr(r))
    got = [l.strip() for l in r[1].split('\n') if l.strip()[:1] == '=']
    own, times = KINDS[w][1], KINDS[w][2]
    old = got[0] if known else None
    if n in before and n != 'len': S.eq(old, '=' + str(before[n]), 'initial value')
    want = ([old] if known else []) + ['=5'] * times + ([old] if own or not times else ['=5'])
    S.eq(got, want, 'reassignment of a declared name')

@harness(quick=[{'op': o} for o in ('inc', 'set', 'loop', 'cond')], thorough=[{'op': o, 'deep': 1} for o in ('inc', 'set', 'loop', 'cond')],
         bounds='variables accumulated or reassigned in (nested) control blocks that lie in the body of a hypertag (used twice), of a tag or at the top level')
def accumulate(S, op, deep=0):
    a, b, c = S.ident('a'), S.ident('b'), S.ident('c')
    where = S.choice('where', ['hypertag', 'attribute', 'div', 'body', 'top'])
    k1 = S.choice('k1', CONTROL if deep else ['if', 'for', 'try', 'else', 'empty'])
    k2 = S.choice('k2', [None, 'for', 'skip', 'div'])
    step = {'inc': [['inc', b]], 'set': [['set', b, 2]], 'loop': [['loop', b, a, [['inc', b]]]], 'cond': [['cond', b, [['inc', a]]]]}[op]
    inner = step if k2 is None else [['block', k2, step], ['ref', c]]
    body = ([] if where == 'attribute' else [['set', a, 1]]) + [['block', k1, inner], ['ref', c]]
    if where in ('hypertag', 'attribute'): prog = [['set', b, 5], ['def', 'G', body, [(a, 1)] if where == 'attribute' else []], ['use', 'G'], ['use', 'G'], ['ref', b]]
    elif where == 'top': prog = body
    else: prog = [['set', b, 5], ['block', where, body], ['ref', b]]
    decide(S, prog)

@harness(quick=[{}], bounds='while loops with the counter and the accumulator in a tag, a hypertag, a control block or at the top level')
def whiles(S):
    k = S.choice('k', ['%H', '% H', 'div', 'if 1', 'for q_ in [1]', 'try', ''])
    n = S.choice('n', [0, 1, 3])
    up = S.choice('up', ['$ t = t + i', '$ t += i', '$ t, _u = t + i, 0', 'if 1\n      $ t += i', 'for w in [i]\n      $ t += w', 'try\n      $ t += i'])
    ind = '  ' if k else ''
    s = '\n'.join([('' if l is None else ind + l) for l in ('$ i = 0\n$ t = 0\nwhile i < %d\n  $ i += 1\n  %s\n| =$t' % (n, up.replace('\n    ', '\n  '))).split('\n')]) + '\n'
    s = '$ t = 50\n' + (k.replace('%H', '% H') + '\n' if k else '') + s + ('H\nH\n' if k[:1] == '%' else '') + '| =$t\n'
    r = S.run(render, s)
    got = [l.strip() for l in r[1].split('\n') if l.strip()[:1] == '='] if r[0] == 'ok' else repr(r)
    total = n * (n + 1) // 2
    own = k in ('div', '% H', '%H')
    S.eq(got, ['=%d' % total] * (2 if k[:1] == '%' else 1) + ['=50' if own else '=%d' % total], 'accumulation in a while loop\n' + s)
