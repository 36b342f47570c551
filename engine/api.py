"""
What a harness sees.  The same harness code runs in two modes:

* symbolically (CPython + z3, explore.py): S is a SymS; inputs are solver variables, the code under test and the harness are
  executed on every feasible path, and every S.check is a solver query over all values that reach it;
* concretely (PyPy 3.9, the interpreter hypertag is used with; replay.py): S is a ConcreteS that takes the inputs from a
  model found by the solver. This is how counterexamples are confirmed and path models are validated.
"""
from .ranges import RangeSet, UNI, UNI_LINE, ASCII, PRINT, LOWER, UPPER, DIGIT, IDSTART, IDCHAR, NL

HARNESSES = {}          # name -> Harness
PROBES = {}             # id of known finding -> function


class Harness(object):
    def __init__(self, name, fn, quick, thorough, bounds, outside):
        self.name, self.fn, self.quick, self.thorough, self.bounds, self.outside = name, fn, quick, thorough, bounds, outside

    def variants(self, tier):
        v = self.quick if tier == 'quick' else (self.quick + self.thorough)
        return v


def harness(quick=None, thorough=None, bounds='', outside=''):
    """quick / thorough: lists of keyword arguments (dicts) the harness is run with; thorough is run in addition to quick."""
    def deco(fn):
        HARNESSES[fn.__name__] = Harness(fn.__name__, fn, quick if quick is not None else [{}], thorough or [], bounds, outside)
        return fn
    return deco

def probe(kid):
    def deco(fn):
        PROBES[kid] = fn
        return fn
    return deco


class Skip(Exception):
    """Concrete mode: an assumption does not hold for these inputs."""

class Failed(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label, detail)
        self.label, self.detail = label, detail


class BaseS(object):
    """Helpers defined in terms of the primitives char / int / bool / pick / check."""

    UNI, UNI_LINE, ASCII, PRINT, LOWER, UPPER, DIGIT, IDSTART, IDCHAR, NL = UNI, UNI_LINE, ASCII, PRINT, LOWER, UPPER, DIGIT, IDSTART, IDCHAR, NL

    def dom(self, chars): return RangeSet.of(chars)

    def text(self, name, n, dom=UNI_LINE):
        return ''.join([self.char('%s.%d' % (name, i), dom) for i in range(n)])

    def string(self, name, maxlen, dom=UNI_LINE, minlen=0):
        n = minlen + self.pick(name + '.len', maxlen - minlen + 1)
        return self.text(name, n, dom)

    def ident(self, name, n=1, first=LOWER, rest=LOWER):
        return self.char(name + '.0', first) + ''.join([self.char('%s.%d' % (name, i), rest) for i in range(1, n)])

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def flag(self, name): return self.pick(name, 2) == 1

    def run(self, f, *a, **k):
        try: return ('ok', f(*a, **k))
        except Exception as ex:
            return ('err', ex)


def norm(v):
    """Canonical, comparable form of a concrete value."""
    if v is None or isinstance(v, (str, bool, int)): return v
    if isinstance(v, float): return repr(v)
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    if isinstance(v, dict): return {'%s' % (k,): norm(x) for k, x in v.items()}
    if isinstance(v, BaseException): return '<%s>' % type(v).__name__
    return '<%s>' % type(v).__name__


class ConcreteS(BaseS):
    symbolic = False

    def __init__(self, inputs, partial=False):
        self.inputs = inputs
        self.partial = partial          # inputs that are missing get a default value
        self.observed = []
        self.used = set()
        self.reached = 0

    def _get(self, name, default):
        if name in self.used: raise AssertionError('duplicate input %r' % name)
        self.used.add(name)
        if self.partial and name not in self.inputs: return default
        return self.inputs[name]

    def char(self, name, dom=UNI_LINE): return chr(self._get(name, dom.first()))
    def int(self, name, lo=None, hi=None): return self._get(name, lo or 0)
    def bool(self, name): return bool(self._get(name, False))
    def pick(self, name, n): return self._get(name, 0)

    def assume(self, cond):
        if not cond: raise Skip()

    def check(self, cond, label, detail=''):
        self.reached += 1
        if not cond: raise Failed(label, detail() if callable(detail) else detail)

    def eq(self, got, want, label):
        self.reached += 1
        if not (got == want): raise Failed(label, 'got %r, expected %r' % (got, want))

    def fail(self, label, detail=''):
        self.reached += 1
        raise Failed(label, detail)

    def observe(self, label, v): self.observed.append((label, norm(v)))
    def cover(self, label): pass
    def conc(self, v): return v
