"""Symbolic scalars, path exploration and proof obligations.

The real source of /repo is executed by CPython itself (after the mechanical instrumentation of
instrument.py) with symbolic numbers (Sym) and symbolic arrays (npmodel.Arr) in place of floats and
numpy arrays.  A branch on a symbolic condition forks the path (by re-execution along a decision
trace); everything assumed on the way is a fact; every `ensure` is an obligation that the solver
portfolio of solver.py must discharge from these facts.  Nothing here depends on ctbayes.
"""
import math
from fractions import Fraction
import z3

z3.set_param('parallel.enable', False)
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
INF = float('inf')


class Unsupported(Exception):
    """The construct lies outside the verifier's subset: nothing is concluded."""


class PathDone(BaseException):
    """The rest of this path is covered elsewhere (loop cut, lemma branch)."""


class Infeasible(BaseException):
    """The path condition is contradictory."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside a verification run')
    return CTX


# ---------------------------------------------------------------- lifting
def frac(x):
    """Read a float literal as the real number that was meant (0.1 is 1/10, 1/3 is one third)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    f = Fraction(repr(float(x)))
    if f.denominator > 10 ** 6:
        g = f.limit_denominator(10 ** 6)
        if float(g) == float(x):
            return g
    return f


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or type(x).__module__ == 'numpy'


def is_finite_num(x):
    return isinstance(x, (int, Fraction)) or (is_num(x) and math.isfinite(x))


def rv(x):
    f = frac(x)
    return z3.RealVal(f)


def lift(x):
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if is_finite_num(x):
        return rv(x)
    raise Unsupported('cannot lift %r' % (x,))


def to_real(e):
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    return e


def to_int(e):
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def unify(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return to_int(a), to_int(b)
    if z3.is_bool(a):
        a = to_int(a)
    if z3.is_bool(b):
        b = to_int(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return to_real(a), to_real(b)


def or_bad(*flags):
    fl = [f for f in flags if f is not None and not z3.is_false(f)]
    if not fl:
        return None
    return fl[0] if len(fl) == 1 else z3.Or(*fl)


def bad_of(x):
    if isinstance(x, Sym):
        return x.bad
    if isinstance(x, float) and x != x:
        return z3.BoolVal(True)
    return None


def concrete(e):
    """z3 numeral -> Python number (exact), else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return f
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def numsign(x):
    """Sign of a finite scalar, deciding (forking) when symbolic."""
    if isinstance(x, Sym):
        if bool(x > 0):
            return 1
        return 0 if bool(x == 0) else -1
    return (x > 0) - (x < 0)


class Sym:
    """A symbolic real, integer or truth value.  `bad` (if not None) is the condition under which
    the value is not a real number (division by zero, log of a non-positive number, nan)."""
    __slots__ = ('e', 'bad')
    __array_priority__ = 1000

    def __init__(self, e, bad=None):
        self.e = e
        self.bad = bad

    # -- helpers
    @property
    def sort(self):
        return self.e.sort()

    def is_bool(self):
        return z3.is_bool(self.e)

    def is_int(self):
        return z3.is_int(self.e)

    def __repr__(self):
        return 'Sym(%s)' % self.e

    def __hash__(self):
        return self.e.hash()

    def __bool__(self):
        e = self.e
        if not z3.is_bool(e):
            e = e != 0
        if self.bad is not None:
            ctx().oblige('defined-before-branch', z3.Not(self.bad))
        return ctx().decide(e)

    def __index__(self):
        c = concrete(z3.simplify(self.e))
        if c is not None and isinstance(c, int):
            return int(c)
        raise Unsupported('symbolic integer used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = concrete(z3.simplify(self.e))
        if c is None:
            raise Unsupported('symbolic value used as a concrete float')
        return float(c)

    # -- arithmetic
    def _bin(self, o, op, rev=False):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        if isinstance(o, Sym) or is_finite_num(o):
            a, b = (o, self) if rev else (self, o)
            return arith(op, a, b)
        if is_num(o):  # infinity or nan
            return inf_arith(op, o, self) if rev else inf_arith(op, self, o)
        return NotImplemented

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __rmod__(self, o): return self._bin(o, '%', True)
    def __pow__(self, o): return self._bin(o, '**')
    def __rpow__(self, o): return self._bin(o, '**', True)
    def __neg__(self): return arith('-', 0, self)
    def __pos__(self): return self
    def __abs__(self): return sabs(self)

    def __and__(self, o):
        if hasattr(o, '_is_arr'): return NotImplemented
        return logic('and', self, o)
    __rand__ = __and__

    def __or__(self, o):
        if hasattr(o, '_is_arr'): return NotImplemented
        return logic('or', self, o)
    __ror__ = __or__

    def __xor__(self, o):
        if hasattr(o, '_is_arr'): return NotImplemented
        return logic('xor', self, o)
    __rxor__ = __xor__

    def __invert__(self):
        if self.is_bool():
            return Sym(z3.Not(self.e), self.bad)
        return -self - 1

    # -- comparison
    def _cmp(self, o, op):
        if hasattr(o, '_is_arr'):
            return NotImplemented
        return compare(op, self, o)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, '!=')

    # -- numpy scalar interface
    def item(self): return self
    def copy(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def T(self): return self
    def astype(self, t): return self
    def flatten(self):
        from . import npmodel
        return npmodel.Arr.from_list([self])
    ravel = flatten
    def sum(self, *a, **k): return self
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def mean(self, *a, **k): return self


def arith(op, a, b):
    bad = or_bad(bad_of(a), bad_of(b))
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        if op == '/' and b == 0:
            return float('nan') if a == 0 else math.copysign(INF, a)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            return frac(a) / frac(b) if isinstance(a, Fraction) or isinstance(b, Fraction) else a / b
        if op == '//': return a // b
        if op == '%': return a % b
        if op == '**': return spow(a, b)
    ae, be = lift(a), lift(b)
    if op in '+-*':
        ae, be = unify(ae, be)
        if op == '+':
            if _isnum(ae, 0): return Sym(be, bad)
            if _isnum(be, 0): return Sym(ae, bad)
            return Sym(ae + be, bad)
        if op == '-':
            if _isnum(be, 0): return Sym(ae, bad)
            if ae.eq(be): return Sym(z3.RealVal(0) if z3.is_real(ae) else z3.IntVal(0), bad)
            return Sym(ae - be, bad)
        if _isnum(ae, 1): return Sym(be, bad)
        if _isnum(be, 1): return Sym(ae, bad)
        if _isnum(ae, 0) or _isnum(be, 0):
            return Sym(z3.RealVal(0) if z3.is_real(ae) else z3.IntVal(0), bad)
        return Sym(ae * be, bad)
    if op == '/':
        ae, be = to_real(ae), to_real(be)
        c = concrete(be)
        if c is not None:
            if c == 0:
                return Sym(ae, z3.BoolVal(True))
            return Sym(ae * z3.RealVal(1 / Fraction(c)), bad)
        return Sym(ae / be, or_bad(bad, be == 0))
    if op in ('//', '%'):
        ae, be = unify(ae, be)
        if z3.is_int(ae):
            c = concrete(be)
            if c is not None and c > 0:
                return Sym(ae / be if op == '//' else ae % be, bad)
            if ctx().entails(be > 0):
                return Sym(ae / be if op == '//' else ae % be, bad)
            raise Unsupported('integer division by a possibly non-positive number')
        q = z3.ToReal(z3.ToInt(ae / be))
        bad = or_bad(bad, be == 0)
        return Sym(q if op == '//' else ae - q * be, bad)
    if op == '**':
        return spow(a, b)
    raise Unsupported(op)


def _isnum(e, v):
    c = concrete(e)
    return c is not None and not isinstance(c, bool) and c == v


def inf_arith(op, a, b):
    """Exactly one of a, b is inf/-inf/nan, the other a Sym (finite real)."""
    av, bv = (a if is_num(a) else None), (b if is_num(b) else None)
    n = av if av is not None else bv
    if n != n:
        return float('nan')
    if op == '+': return n
    if op == '-': return av if av is not None else -bv
    if op == '*':
        s = numsign(b if av is not None else a)
        return float('nan') if s == 0 else n * s
    if op == '/':
        if av is None:
            return 0.0
        s = numsign(b)
        return float('nan') if s == 0 else av * s
    raise Unsupported('%s with infinity' % op)


def sneg(a):
    return -a


def logic(op, a, b):
    ae, be = lift(a), lift(b)
    bad = or_bad(bad_of(a), bad_of(b))
    if not z3.is_bool(ae) or not z3.is_bool(be):
        raise Unsupported('bitwise operation on numbers')
    if op == 'and': r = z3.And(ae, be)
    elif op == 'or': r = z3.Or(ae, be)
    else: r = z3.Xor(ae, be)
    return Sym(z3.simplify(r) if z3.is_true(ae) or z3.is_false(ae) or z3.is_true(be) or z3.is_false(be) else r, bad)


PYCMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
         '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def compare(op, a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return PYCMP[op](a, b)
    for x, flip in ((a, False), (b, True)):
        if is_num(x) and not is_finite_num(x):
            if x != x:
                return op == '!='
            # the other side is a finite real
            l, r = (0, x) if flip else (x, 0)
            return PYCMP[op](l, r)
    if not (isinstance(a, Sym) or is_num(a)) or not (isinstance(b, Sym) or is_num(b)):
        if op in ('==', '!='):
            return op == '!='
        raise TypeError('comparison of number with %s' % type(b))
    bad = or_bad(bad_of(a), bad_of(b))
    ae, be = lift(a), lift(b)
    if z3.is_bool(ae) and z3.is_bool(be) and op in ('==', '!='):
        return Sym(ae == be if op == '==' else z3.Xor(ae, be), bad)
    ae, be = unify(ae, be)
    if ae.eq(be):
        return Sym(z3.BoolVal(op in ('<=', '>=', '==')), bad) if bad is not None else (op in ('<=', '>=', '=='))
    ca, cb = concrete(ae), concrete(be)
    if ca is not None and cb is not None:
        return Sym(z3.BoolVal(PYCMP[op](ca, cb)), bad) if bad is not None else PYCMP[op](ca, cb)
    e = {'<': ae < be, '<=': ae <= be, '>': ae > be, '>=': ae >= be, '==': ae == be, '!=': ae != be}[op]
    return Sym(e, bad)


def ite(c, a, b):
    """If-then-else on a scalar condition without forking (forks only if a branch is infinite)."""
    if not isinstance(c, Sym):
        return a if c else b
    ce = c.e if c.is_bool() else c.e != 0
    if z3.is_true(ce): return a
    if z3.is_false(ce): return b
    if a is b:
        return a
    nan_a, nan_b = (isinstance(a, float) and a != a), (isinstance(b, float) and b != b)
    inf_a = is_num(a) and not is_finite_num(a) and not nan_a
    inf_b = is_num(b) and not is_finite_num(b) and not nan_b
    if inf_a or inf_b:
        return a if bool(c) else b
    if nan_a and nan_b:
        return a
    av, bv = (0 if nan_a else a), (0 if nan_b else b)
    ba = z3.BoolVal(True) if nan_a else bad_of(a)
    bb = z3.BoolVal(True) if nan_b else bad_of(b)
    ae, be = lift(av), lift(bv)
    if not (z3.is_bool(ae) and z3.is_bool(be)):
        ae, be = unify(ae, be)
    bad = None
    if ba is not None or bb is not None:
        bad = z3.simplify(z3.If(ce, ba if ba is not None else z3.BoolVal(False), bb if bb is not None else z3.BoolVal(False)))
        if z3.is_false(bad): bad = None
    bad = or_bad(bad, c.bad)
    if ae.eq(be):
        return Sym(ae, bad)
    return Sym(z3.If(ce, ae, be), bad)


def smin2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    for x, y in ((a, b), (b, a)):
        if is_num(x) and not is_finite_num(x):
            return y if x > 0 else x
    if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e):
        return a
    return ite(compare('<=', a, b), a, b)


def smax2(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    for x, y in ((a, b), (b, a)):
        if is_num(x) and not is_finite_num(x):
            return x if x > 0 else y
    if isinstance(a, Sym) and isinstance(b, Sym) and a.e.eq(b.e):
        return a
    return ite(compare('>=', a, b), a, b)


def sabs(x):
    if isinstance(x, Sym):
        return ite(compare('>=', x, 0), x, arith('-', 0, x))
    return abs(x)


# ---------------------------------------------------------------- transcendental functions (uninterpreted, axioms in solver.py)
EXP = z3.Function('exp', R, R)
LOG = z3.Function('log', R, R)
SQRT = z3.Function('sqrt', R, R)
POW = z3.Function('pow', R, R, R)
LGAMMA = z3.Function('lgamma', R, R)
PI = z3.Real('pi')


def sexp(x):
    if isinstance(x, Sym):
        c = concrete(x.e)
        if c is not None and c == 0:
            return Sym(z3.RealVal(1), x.bad)
        return Sym(EXP(to_real(x.e)), x.bad)
    if is_finite_num(x):
        return 1 if x == 0 else Sym(EXP(rv(x)))
    return math.exp(x)


def slog(x):
    if isinstance(x, Sym):
        e = to_real(x.e)
        c = concrete(e)
        if c is not None and c == 1:
            return 0
        if c is not None and c == 0:
            return -INF
        return Sym(LOG(e), or_bad(x.bad, e <= 0))
    if x == 0:
        return -INF
    if is_finite_num(x):
        if x < 0: return float('nan')
        return 0 if x == 1 else Sym(LOG(rv(x)))
    return math.log(x) if x > 0 else float('nan')


def ssqrt(x):
    if isinstance(x, Sym):
        e = to_real(x.e)
        return Sym(SQRT(e), or_bad(x.bad, e < 0))
    if is_finite_num(x):
        if x < 0: return float('nan')
        f = frac(x)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Fraction(n, d) if d != 1 else n
        return Sym(SQRT(rv(x)))
    return math.sqrt(x) if x > 0 else float('nan')


def spow(a, b):
    if is_num(b) and is_finite_num(b):
        fb = frac(b)
        if fb.denominator == 1:
            n = fb.numerator
            if not isinstance(a, Sym):
                if is_finite_num(a):
                    if n < 0 and a == 0:
                        return INF
                    return frac(a) ** n if isinstance(a, Fraction) else a ** b
                return a ** n
            if n == 0:
                return Sym(z3.RealVal(1), a.bad) if a.bad is not None else 1
            r = a
            for _ in range(abs(n) - 1):
                r = r * a
            return r if n > 0 else arith('/', 1, r)
        if fb.denominator == 2:
            s = ssqrt(a)
            r = spow(s, fb.numerator)
            return r
        if fb.denominator == 4:
            return spow(ssqrt(ssqrt(a)), fb.numerator)
        if not isinstance(a, Sym) and a > 0:
            return float(a) ** float(b)
        if isinstance(a, Sym):
            return Sym(POW(to_real(a.e), rv(b)), or_bad(a.bad, to_real(a.e) < 0))
    if isinstance(b, Sym):
        ae, be = to_real(lift(a)), to_real(b.e)
        return Sym(POW(ae, be), or_bad(bad_of(a), b.bad, ae < 0))
    raise Unsupported('power %r ** %r' % (a, b))


# ---------------------------------------------------------------- facts
class Schema:
    """forall index terms: body.  Instantiated by the prover over ground integer (or real) terms that
    occur as arguments of the trigger functions."""
    def __init__(self, arity, body, triggers=None, sort='Int', name=''):
        self.arity, self.body, self.triggers, self.sort, self.name = arity, body, triggers, sort, name


class Obligation:
    def __init__(self, name, status, detail='', backend='', secs=0.0, model=None):
        self.name, self.status, self.detail, self.backend, self.secs, self.model = name, status, detail, backend, secs, model


class Ctx:
    """One execution of a verification unit along one decision trace."""

    def __init__(self, prefix, run):
        self.prefix, self.pos, self.trace = prefix, 0, []
        self.run = run
        self.facts, self.schemas = [], []
        self.counter = {}
        self.known = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 250)
        self.generic_stack = []   # list of (K, guard list)
        self.pv = 0
        self.memo = {}
        self.loop_handlers = []
        self.draws = []
        self.inputs = []
        self.sums = {}
        self.events = []
        self.local_depth = 0
        self.grounded = {}
        self.havoc_hooks, self.fall_hooks = [], []

    # -- names
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def placeholders(self):
        return [k for k, _ in self.generic_stack]

    def fresh(self, base, sort):
        """A fresh constant -- or, under a generic index, a fresh function of it."""
        ph = self.placeholders()
        nm = self.name(base)
        if ph:
            return z3.Function(nm, *([p.sort() for p in ph] + [sort]))(*ph)
        return z3.Const(nm, sort)

    def real(self, base='r'):
        return Sym(self.fresh(base, R))

    def int(self, base='n'):
        return Sym(self.fresh(base, I))

    def bool(self, base='b'):
        return Sym(self.fresh(base, B))

    def fun(self, base, arity, sort=R, domain=I):
        """A fresh function of `arity` indices (and of the active generic indices)."""
        ph = self.placeholders()
        f = z3.Function(self.name(base), *([p.sort() for p in ph] + [domain] * arity + [sort]))
        return (lambda *a: f(*ph, *a)), f

    # -- assumptions
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                if self.generic_stack: raise Unsupported('a false assumption about a generic element')
                raise Infeasible()
            return
        if isinstance(c, Sym):
            if c.bad is not None:
                self._fact(z3.Not(c.bad))
            c = c.e
        self._fact(c)

    def _fact(self, e):
        e = z3.simplify(e) if z3.is_app_of(e, z3.Z3_OP_TRUE) else e
        if z3.is_true(e):
            return
        if self.generic_stack:
            ks = [k for k, _ in self.generic_stack]
            guards = [g for _, gs in self.generic_stack for g in gs]
            self.add_generic_schema(ks, guards, e)
            if guards: e = z3.Implies(z3.And(*guards), e)
        self.facts.append(e)
        self.solver.add(e)

    def add_generic_schema(self, ks, guards, e):
        trig = app_functions_with(e, ks)
        for g in guards:
            pass

        def body(*idx):
            sub = list(zip(ks, idx))
            return z3.Implies(z3.And(*[z3.substitute(g, *sub) for g in guards]) if guards else z3.BoolVal(True),
                              z3.substitute(e, *sub))
        self.schemas.append(Schema(len(ks), body, trig, name='generic'))

    def schema(self, arity, body, triggers=None, name='', sort='Int'):
        """Assume forall indices: body(*indices) (a z3 Bool)."""
        if self.generic_stack:
            ks = [k for k, _ in self.generic_stack]
            guards = [g for _, gs in self.generic_stack for g in gs]
            n = len(ks)

            def body2(*idx):
                sub = list(zip(ks, idx[:n]))
                b = body(*idx[n:])
                full = z3.Implies(z3.And(*guards), b) if guards else b
                return z3.substitute(full, *sub)
            self.schemas.append(Schema(arity + n, body2, triggers, sort, name))
            inner = body
            body = lambda *idx: z3.Implies(z3.And(*guards), inner(*idx)) if guards else inner(*idx)
        self.schemas.append(Schema(arity, body, triggers, sort, name))

    # -- decisions
    def entails(self, e):
        """Quick check only: True if the facts clearly imply e."""
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return self.solver.check(*[g for _, gs in self.generic_stack for g in gs], z3.Not(e)) == z3.unsat

    def proves(self, e):
        """A quick silent proof attempt with schema instances (decides only how a value is represented)."""
        if isinstance(e, Sym): e = e.e
        if isinstance(e, bool): return e
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        key = ('pv', tuple(ch for ch, _ in self.trace), self.pv)
        self.pv += 1
        r = self.run.cache.get(key)
        if r is None:
            r = self.entails(e) or self.run.prover.quick(self.facts + [g for _, gs in self.generic_stack for g in gs], self.schemas, e)
            self.run.cache[key] = r
        return r

    def decide(self, e):
        s = z3.simplify(e)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        self.ground(e)
        k = self.known.get(s.get_id())
        if k is not None:
            return k[0]
        if self.generic_stack:
            # no forking under a generic index, unless the facts settle the condition
            if self.entails(e): return True
            if self.entails(z3.Not(e)): return False
            raise GenericFork(s)
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            alts = []
        else:
            self.run.n_decisions += 1
            t = self.solver.check(e)
            if t == z3.unsat:
                choice, alts = False, []
            else:
                f = self.solver.check(z3.Not(e))
                choice, alts = True, ([] if f == z3.unsat else [False])
        self.pos += 1
        self.trace.append((choice, alts))
        c = s if choice else z3.simplify(z3.Not(s))
        self.known[s.get_id()] = (choice, s)
        ns = z3.simplify(z3.Not(s))
        self.known[ns.get_id()] = (not choice, ns)
        self.facts.append(c)
        self.solver.add(c)
        return choice

    def ground(self, e):
        """Instantiate the unary schemas at the index terms occurring in e (input facts of array entries)."""
        if not self.schemas: return
        un = [(j, sc) for j, sc in enumerate(self.schemas) if sc.arity == 1 and sc.triggers and sc.sort == 'Int']
        if not un: return
        stack, seen, todo = [e], set(), []
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                for a in x.children():
                    if z3.is_int(a):
                        for j, sc in un:
                            if nm in sc.triggers and (j, a.get_id()) not in self.grounded:
                                self.grounded[(j, a.get_id())] = a
                                todo.append(sc.body(a))
            stack.extend(x.children())
        for f in todo:
            self.facts.append(f); self.solver.add(f)

    def choose(self, n, label=''):
        """Explore n alternatives (0..n-1)."""
        if self.generic_stack:
            raise Unsupported('choice under a generic index')
        if self.pos < len(self.prefix):
            choice, alts = self.prefix[self.pos], []
        else:
            choice, alts = 0, list(range(1, n))
        self.pos += 1
        self.trace.append((choice, alts))
        return choice

    # -- obligations
    def oblige(self, name, goal, **kw):
        """The goal must follow from the facts of this path; afterwards it is assumed."""
        if isinstance(goal, Sym):
            g = goal.e if goal.is_bool() else goal.e != 0
            if goal.bad is not None:
                g = z3.And(z3.Not(goal.bad), g)
            goal = g
        elif isinstance(goal, (bool,)) or type(goal).__name__ == 'bool_':
            goal = z3.BoolVal(bool(goal))
        if self.generic_stack:
            goal2 = goal
        ok = self.run.prove(self, name, goal, **kw)
        if not z3.is_true(goal):
            self._fact(goal) if ok else None
        return ok


class GenericFork(Unsupported):
    def __init__(self, e):
        super().__init__('branch on a generic element: %s' % (str(e)[:200]))


def app_functions_with(e, ks):
    """Uninterpreted function symbols applied (somewhere in e) to arguments containing one of ks."""
    kid = {k.get_id() for k in ks}
    out, seen = {}, {}

    def has(x):
        i = x.get_id()
        if i in seen: return seen[i]
        r = i in kid or any(has(c) for c in x.children())
        seen[i] = r
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if any(c.get_id() in kid for c in x.children()):
                out[x.decl().name()] = x.decl()
        return r
    has(e)
    return set(out)


def defined(x):
    """z3 condition that the scalar is a real number."""
    b = bad_of(x)
    return z3.BoolVal(True) if b is None else z3.Not(b)
