"""
Core of the symbolic executor: symbolic characters (tokens), symbolic integers and booleans, path decisions.

A symbolic character is an ordinary one-character Python string from the private-use planes 15-16, a *token*,
that is bound to a z3 integer (its code point) and a domain. Operations that only move characters around (join, slice,
format, ...) therefore run natively; all operations that look at characters are intercepted (rt.py, strops.py, sregex.py)
and answered by the solver, forking the path when both answers are possible.
"""
import re, sys
import z3
from .ranges import RangeSet, UNI

TOK_LO, TOK_HI = 0xF0000, 0x10FFFF
TOK_RE = re.compile('[\U000F0000-\U0010FFFF]')
_tok_search = TOK_RE.search


class PathEnd(BaseException):
    """Raised to stop the current path (infeasible assumption, violation found, budget of a path exceeded)."""

class Infeasible(PathEnd): pass

class Violation(PathEnd):
    def __init__(self, label, witness, detail=''):
        self.label, self.witness, self.detail = label, witness, detail

class EngineError(PathEnd): pass


def has_tok(s):
    return not s.isascii() and _tok_search(s) is not None

def is_tok(c):
    return len(c) == 1 and TOK_LO <= ord(c) <= TOK_HI


_range_exprs = {}

def range_cond(expr, rs):
    """z3 condition: code point `expr` lies in RangeSet `rs` (the smaller of the set and its complement is encoded)."""
    r = rs.r
    comp = rs.complement()
    if len(comp.r) < len(r):
        return z3.Not(range_cond_pos(expr, comp))
    return range_cond_pos(expr, rs)

def range_cond_pos(expr, rs):
    out = []
    for a, b in rs.r:
        if a == b: out.append(expr == a)
        elif a == 0: out.append(expr <= b)
        else: out.append(z3.And(expr >= a, expr <= b))
    if not out: return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(out)


class Path(object):
    """State of the path being executed."""

    def __init__(self, prefix, max_decisions=4000):
        self.prefix = prefix            # list of decisions to replay
        self.trace = []                 # decisions taken so far
        self.alternatives = []          # prefixes of the sibling branches that are feasible
        self.solver = z3.Solver()
        self.solver.set('random_seed', 1)
        self.ntok = 0
        self.exprs = {}                 # token -> z3 expression
        self.doms = {}                  # token -> RangeSet: current domain (base tokens only)
        self.related = set()            # base tokens that occur in a constraint with other variables
        self.inputs = []                # (name, kind, z3 var, info) in order of creation
        self.names = set()
        self.queries = 0                # solver calls on branches
        self.checks = 0                 # solver calls on assertions
        self.checks_triv = 0            # assertions that were discharged because both sides are the same term
        self.reached = 0                # assertions reached
        self.observed = []              # (label, value) pairs for validation against the real code
        self.covers = set()
        self.hashed = False             # a string with tokens has been used as a key on this path
        self.incomplete = 0             # no. of concretisations that drop values
        self.max_decisions = max_decisions
        self.int_dom = {}               # name -> (lo, hi)
        self.known = {}                 # ast id of a decided boolean term -> (term, value)
        self.solver_s = 0.0

    # ------------------------------------------------------------------ inputs

    def fresh_name(self, name):
        if name in self.names: raise EngineError('duplicate symbolic input %r' % name)
        self.names.add(name)

    def new_token(self, expr, dom=None):
        t = chr(TOK_LO + self.ntok)
        self.ntok += 1
        self.exprs[t] = expr
        if dom is not None: self.doms[t] = dom
        return t

    def char(self, name, dom):
        self.fresh_name(name)
        v = z3.Int('c.' + name)
        self.solver.add(range_cond(v, dom))
        t = self.new_token(v, dom)
        self.inputs.append((name, 'char', v, dom))
        return t

    def int(self, name, lo, hi):
        self.fresh_name(name)
        v = z3.Int('i.' + name)
        self.solver.add(v >= lo, v <= hi) if lo is not None else None
        self.inputs.append((name, 'int', v, (lo, hi)))
        return SymInt(v)

    def bool(self, name):
        self.fresh_name(name)
        v = z3.Bool('b.' + name)
        self.inputs.append((name, 'bool', v, None))
        return SymBool(v)

    # ------------------------------------------------------------------ solver

    def sat(self, *conds):
        import time
        t = time.time()
        r = self.solver.check(*conds)
        self.solver_s += time.time() - t
        if r == z3.unknown: raise EngineError('solver returned unknown: %s' % self.solver.reason_unknown())
        return r == z3.sat

    def expr_of(self, ch):
        """z3 term of a one-character string."""
        e = self.exprs.get(ch)
        return e if e is not None else z3.IntVal(ord(ch))

    def witness(self, *conds):
        """Concrete values of all inputs on this path (plus `conds`); None if unsatisfiable."""
        if not self.sat(*conds): return None
        m = self.solver.model()
        out = {}
        for name, kind, v, info in self.inputs:
            x = m.eval(v, model_completion=True)
            if kind == 'bool': out[name] = bool(z3.is_true(x))
            else:
                x = x.as_long()
                if kind == 'char' and x not in info: x = info.first()       # unconstrained variable: any value of the domain
                if kind == 'int' and info[0] is not None and not info[0] <= x <= info[1]: x = info[0]
                out[name] = x
        self.last_model = m
        return out

    # ------------------------------------------------------------------ decisions

    def _take(self, n_feasible, choice_list):
        """Choose one of the feasible branches: replayed from the prefix or the first one; others are scheduled."""
        pos = len(self.trace)
        if pos >= self.max_decisions: raise EngineError('too many decisions on one path')
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = choice_list[0]
            for alt in choice_list[1:]:
                self.alternatives.append(self.trace + [alt])
        self.trace.append(c)
        return c

    def branch(self, cond, tok=None, rs=None):
        """Truth value of a z3 condition on this path; forks if both are possible. (tok, rs): the condition says that
        the base token `tok` lies in RangeSet `rs`."""
        if tok is not None:
            dom = self.doms[tok]
            inter = dom & rs
            if not inter: return False
            if inter.r == dom.r: return True
        else:
            cond = z3.simplify(cond)
            if z3.is_true(cond): return True
            if z3.is_false(cond): return False
            k = self.known.get(cond.get_id())
            if k is not None: return k[1]

        pos = len(self.trace)
        if pos < len(self.prefix):
            val = self._take(2, None)
            if val is not True and val is not False: raise EngineError('replay diverged: decision %r at a branch' % (val,))
        else:
            if cond is None: cond = range_cond(self.exprs[tok], rs)
            if tok is not None and tok not in self.related:
                options = [True, False]                     # decided by the domain of an unrelated variable
            else:
                self.queries += 2
                options = []
                if self.sat(cond): options.append(True)
                if not options or self.sat(z3.Not(cond)): options.append(False)
            if len(options) == 1:
                self._learn(cond, options[0], tok, rs, add=False)
                return self._forced(options[0])
            val = self._take(2, options)
        if cond is None: cond = range_cond(self.exprs[tok], rs)
        self._learn(cond, val, tok, rs)
        return val

    def _forced(self, val):
        self.trace.append(val)          # recorded, so that a replay needs no solver call
        if len(self.trace) > self.max_decisions: raise EngineError('too many decisions on one path')
        return val

    def _learn(self, cond, val, tok, rs, add=True):
        if tok is not None:
            self.doms[tok] = (self.doms[tok] & rs) if val else (self.doms[tok] - rs)
            add and self.solver.add(range_cond(self.exprs[tok], self.doms[tok]))
            return
        self.known[cond.get_id()] = (cond, val)
        self.mark_related(cond)
        c = cond if val else z3.Not(cond)
        if add: self.solver.add(c)

    def mark_related(self, cond):
        """All characters occurring in `cond` are no longer described by their domain alone."""
        vs = set()
        stack, seen = [cond], set()
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen: continue
            seen.add(i)
            if e.num_args() == 0:
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: vs.add(i)
            else: stack.extend(e.children())
        for t in self.doms:
            if t not in self.related and self.exprs[t].get_id() in vs: self.related.add(t)

    def concretize(self, expr, limit=None, what='value'):
        """Fork over the values of an integer term; all feasible ones if limit is None, else at most `limit` of them."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr): return expr.as_long()
        n = 0
        while True:
            pos = len(self.trace)
            if pos < len(self.prefix):
                d = self._take(0, None)
                if not isinstance(d, tuple): raise EngineError('replay diverged: decision %r at a concretisation' % (d,))
            else:
                self.queries += 1
                if not self.sat(): raise Infeasible()
                v = self.solver.model().eval(expr, model_completion=True).as_long()
                self.queries += 1
                options = [('=', v)]
                if self.sat(expr != v):
                    if limit is not None and n + 1 >= limit: self.incomplete += 1
                    else: options.append(('!', v))
                d = self._take(0, options)
            kind, v = d
            n += 1
            if kind == '=':
                c = expr == v
                self.solver.add(c); self.mark_related(c)
                for t, e in self.exprs.items():
                    if t in self.doms and e.get_id() == expr.get_id(): self.doms[t] = RangeSet.single(v)
                return v
            c = expr != v
            self.solver.add(c); self.mark_related(c)

    def choose(self, name, n):
        """A symbolic index 0..n-1, decided at once."""
        self.fresh_name(name)
        v = z3.Int('k.' + name)
        self.solver.add(v >= 0, v < n)
        self.inputs.append((name, 'int', v, (0, n - 1)))
        pos = len(self.trace)
        if pos < len(self.prefix):
            i = self._take(n, None)
            i = i[1]
        else:
            self.queries += 1
            opts = [('k', i) for i in range(n)]
            i = self._take(n, opts)[1]
        self.solver.add(v == i)
        return i


PATH = None             # the current Path


def path(): return PATH

def set_path(p):
    global PATH
    PATH = p


# ---------------------------------------------------------------------------------------------------------------- booleans

class SymBool(object):
    """A boolean term. bool() of it forks the path."""
    __slots__ = ('e', 'tok', 'rs', 'neg')

    def __init__(self, e, tok=None, rs=None):
        self.e, self.tok, self.rs = e, tok, rs

    def expr(self):
        if self.e is None: self.e = range_cond(PATH.exprs[self.tok], self.rs)
        return self.e

    def __bool__(self):
        return PATH.branch(self.e, self.tok, self.rs)

    def negate(self):
        if self.tok is not None: return SymBool(None, self.tok, self.rs.complement())
        return SymBool(z3.Not(self.expr()))

    def _int(self): return SymInt(z3.If(self.expr(), z3.IntVal(1), z3.IntVal(0)))
    def __eq__(self, o):
        if isinstance(o, SymBool): return SymBool(self.expr() == o.expr())
        if o is True: return self
        if o is False: return self.negate()
        if isinstance(o, (int, SymInt)): return self._int() == o
        return False
    def __ne__(self, o): return s_not(self == o)
    def __hash__(self): return hash(bool(self))
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def __str__(self): return str(bool(self))
    __repr__ = __str__
    def __format__(self, spec): return format(bool(self), spec)
    def __and__(self, o):
        if isinstance(o, (bool, SymBool)): return s_and(self, o)
        return self._int() & o
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, (bool, SymBool)): return s_or(self, o)
        return self._int() | o
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)): return SymBool(z3.Xor(self.expr(), b_expr(o)))
        return self._int() ^ o
    __rxor__ = __xor__
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

def _lift(name):
    def op(self, *a): return getattr(self._int(), name)(*a)
    return op
for _n in ('add radd sub rsub mul rmul floordiv rfloordiv mod rmod truediv rtruediv neg pos invert lt le gt ge '
           'lshift rlshift rshift rrshift pow rpow abs').split():
    setattr(SymBool, '__%s__' % _n, _lift('__%s__' % _n))


def b_expr(x):
    if isinstance(x, SymBool): return x.expr()
    return z3.BoolVal(bool(x))

def s_not(x):
    if isinstance(x, SymBool): return x.negate()
    return not x

def s_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool): out.append(x)
        elif not x: return False
    if not out: return True
    if len(out) == 1: return out[0]
    return SymBool(z3.And([x.expr() for x in out]))

def s_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool): out.append(x)
        elif x: return True
    if not out: return False
    if len(out) == 1: return out[0]
    return SymBool(z3.Or([x.expr() for x in out]))


# ---------------------------------------------------------------------------------------------------------------- integers

def i_expr(x):
    if isinstance(x, SymInt): return x.e
    if isinstance(x, SymBool): return z3.If(x.expr(), z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int): return z3.IntVal(int(x))
    return None

def mk_int(e):
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return SymInt(e)

def mk_bool(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SymBool(e)


class SymInt(object):
    """An integer term (mathematical integer, like Python's)."""
    __slots__ = ('e',)

    def __init__(self, e): self.e = e

    def value(self): return PATH.concretize(self.e)

    def __bool__(self): return PATH.branch(self.e != 0)
    def __index__(self): return self.value()
    def __int__(self): return self.value()
    def __float__(self): return float(self.value())
    def __str__(self): return str(self.value())
    __repr__ = __str__
    def __format__(self, spec): return format(self.value(), spec)
    def __hash__(self): return hash(self.value())
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __neg__(self): return mk_int(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mk_int(z3.If(self.e >= 0, self.e, -self.e))
    def __invert__(self): return mk_int(-self.e - 1)

    def __eq__(self, o):
        x = i_expr(o)
        if x is not None: return mk_bool(self.e == x)
        if isinstance(o, float): return self.value() == o
        return False
    def __ne__(self, o): return s_not(self == o)

def _arith(name, fun, rfun=None):
    def op(self, o):
        x = i_expr(o)
        if x is None:
            if isinstance(o, float): return getattr(self.value(), '__%s__' % name)(o)
            return NotImplemented
        return fun(self.e, x)
    def rop(self, o):
        x = i_expr(o)
        if x is None:
            if isinstance(o, float): return getattr(o, '__%s__' % name)(self.value())
            return NotImplemented
        return fun(x, self.e)
    setattr(SymInt, '__%s__' % name, op)
    setattr(SymInt, '__r%s__' % name, rop)

def _cmp(name, fun):
    def op(self, o):
        x = i_expr(o)
        if x is None:
            if isinstance(o, float): return getattr(self.value(), '__%s__' % name)(o)
            return NotImplemented
        return mk_bool(fun(self.e, x))
    setattr(SymInt, '__%s__' % name, op)

def _nz(b, msg):
    if PATH.branch(b == 0): raise ZeroDivisionError(msg)

def _floordiv(a, b):
    _nz(b, 'integer division or modulo by zero')
    return mk_int(z3.If(b > 0, a / b, (-a) / (-b)))

def _mod(a, b):
    _nz(b, 'integer modulo by zero')
    q = z3.If(b > 0, a / b, (-a) / (-b))
    return mk_int(a - b * q)

def _conc2(f):
    def op(a, b):
        x = PATH.concretize(a); y = PATH.concretize(b)
        return f(x, y)
    return op

_arith('add', lambda a, b: mk_int(a + b))
_arith('sub', lambda a, b: mk_int(a - b))
_arith('mul', lambda a, b: mk_int(a * b))
_arith('floordiv', _floordiv)
_arith('mod', _mod)
_arith('truediv', _conc2(lambda x, y: x / y))
_arith('pow', _conc2(lambda x, y: x ** y))
_arith('and', _conc2(lambda x, y: x & y))
_arith('or', _conc2(lambda x, y: x | y))
_arith('xor', _conc2(lambda x, y: x ^ y))
_arith('lshift', _conc2(lambda x, y: x << y))
_arith('rshift', _conc2(lambda x, y: x >> y))
_cmp('lt', lambda a, b: a < b)
_cmp('le', lambda a, b: a <= b)
_cmp('gt', lambda a, b: a > b)
_cmp('ge', lambda a, b: a >= b)
