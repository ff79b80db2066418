"""Symbolic numpy.  `Arr` is an array given by a shape (concrete or symbolic lengths) and an element
function.  Every operation mirrors numpy's documented semantics; where the length is symbolic the
reductions, searches and selections are characterised by axioms (facts and schemas) instead of loops.
"""
import builtins
import itertools
import math
import types as _types
from fractions import Fraction
import z3
from . import core
from .core import (Sym, Unsupported, ctx, lift, to_real, is_num, is_finite_num, ite, smin2, smax2, sabs, sexp, slog, ssqrt,
                   spow, arith, compare, concrete, R, I, B, INF, or_bad, bad_of, PI, LGAMMA, GenericFork)


# ---------------------------------------------------------------- dims
def dim_is_int(d):
    return isinstance(d, int) and not isinstance(d, bool)


def norm_dim(d):
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    if isinstance(d, float):
        return int(d)
    if isinstance(d, Fraction):
        return int(d)
    if isinstance(d, Sym):
        s = z3.simplify(d.e)
        c = concrete(s)
        if c is not None:
            return int(c)
        return Sym(s, d.bad)
    if hasattr(d, 'item'):
        return norm_dim(d.item())
    raise Unsupported('dimension %r' % (d,))


def dim_add(a, b):
    return norm_dim(a + b)


def dim_eq(a, b):
    """Do two lengths agree?  (decides when symbolic)"""
    if dim_is_int(a) and dim_is_int(b):
        return a == b
    r = compare('==', a, b)
    if isinstance(r, bool):
        return r
    s = z3.simplify(r.e)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    if ctx().entails(s): return True
    return bool(Sym(s))


def ie(x):
    """index -> z3 int"""
    return lift(x) if not isinstance(x, bool) else z3.IntVal(int(x))


def as_index(x):
    if isinstance(x, Sym):
        if x.is_bool():
            return Sym(core.to_int(x.e))
        if z3.is_real(x.e):
            s = z3.simplify(x.e)
            if z3.is_to_real(s):
                return Sym(s.arg(0))
            raise IndexError('real index')
        c = concrete(z3.simplify(x.e))
        return int(c) if c is not None else x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return int(x)


MAXEAGER = 4096


class Arr:
    _is_arr = True
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, shape, get, dtype=None, view_of=None, eager=True):
        self._shape = tuple(norm_dim(d) for d in shape)
        self.view_of = view_of
        self.frozen = None
        self._dt = dtype
        self._cells = None
        self._memo = {}
        if all(dim_is_int(d) for d in self._shape) and view_of is None:
            n = math.prod(self._shape)
            if n > MAXEAGER:
                self._getf = get
            else:
                self._cells = {ix: get(ix) for ix in itertools.product(*[range(d) for d in self._shape])}
                self._getf = None
        else:
            self._getf = get

    # -- construction
    @staticmethod
    def from_list(lst, dtype=None):
        """From nested Python sequences / arrays / SymLists."""
        lst = plain(lst)
        if isinstance(lst, Arr):
            return lst
        if isinstance(lst, SymList):
            return lst.to_arr()
        if not isinstance(lst, (list, tuple)):
            return Arr((), lambda ix: lst, dtype)
        items = [x if not isinstance(x, (list, tuple, SymList)) else Arr.from_list(x) for x in lst]
        items = [x.item_() if isinstance(x, Arr) and x._shape == () else x for x in items]
        if any(isinstance(x, Arr) for x in items):
            if not all(isinstance(x, Arr) for x in items):
                raise ValueError('inhomogeneous shape')
            sh = items[0]._shape
            for x in items[1:]:
                if len(x._shape) != len(sh) or not all(dim_eq(p, q) for p, q in zip(x._shape, sh)):
                    raise ValueError('inhomogeneous shape')
            gets = [x.snap() for x in items]
            return Arr((len(items),) + sh, lambda ix: pick(gets, ix[0], lambda g: g(ix[1:])), dtype)
        items = [numify(x) for x in items]
        if dtype is None:
            dtype = join_dtype(items)
        return Arr((len(items),), lambda ix: pick(items, ix[0], lambda v: v), dtype)

    # -- element access
    def get(self, ix):
        ix = tuple(as_index(i) if not (type(i) is int) else i for i in ix)
        if self._cells is not None:
            if all(type(i) is int for i in ix):
                return self._cells[ix]
            return self._pick_cells(ix)
        if self.view_of is not None:
            return self._getf(ix)
        key = tuple(i if type(i) is int else ('s', i.e.get_id()) for i in ix) + tuple(p.get_id() for p in ctx().placeholders())
        r = self._memo.get(key)
        if r is None:
            v = self._getf(ix)
            self._memo[key] = (v, ix)
            return v
        return r[0]

    def _pick_cells(self, ix, pos=()):
        if not ix:
            return self._cells[pos]
        d = self._shape[len(pos)]
        if type(ix[0]) is int:
            return self._pick_cells(ix[1:], pos + (ix[0],))
        out = None
        for j in reversed(range(d)):
            v = self._pick_cells(ix[1:], pos + (j,))
            out = v if out is None else ite(compare('==', ix[0], j), v, out)
        if out is None:
            raise IndexError
        return out

    def snap(self):
        """A snapshot of the element function (numpy operations copy)."""
        if self._cells is not None:
            cells, shape = dict(self._cells), self._shape
            tmp = object.__new__(Arr)
            tmp._shape, tmp._cells, tmp._memo, tmp.view_of, tmp._getf, tmp._dt, tmp.frozen = shape, cells, {}, None, None, self._dt, None
            return tmp.get
        if self.view_of is not None:
            v, f = self.view_of, self._getf
            ver = self.root()._memo
            root, rs = self.root(), self.root().snapstate()
            me = self

            def g(ix):
                cur = root.snapstate()
                root.restorestate(rs)
                try:
                    return me._getf(tuple(ix))
                finally:
                    root.restorestate(cur)
            return g
        tmp = object.__new__(Arr)
        tmp._shape, tmp._cells, tmp._memo, tmp.view_of, tmp._getf, tmp._dt, tmp.frozen = self._shape, None, self._memo, None, self._getf, self._dt, None
        return tmp.get

    def root(self):
        a = self
        while a.view_of is not None:
            a = a.view_of
        return a

    def snapstate(self):
        return (dict(self._cells) if self._cells is not None else None, self._getf, self._memo)

    def restorestate(self, s):
        self._cells, self._getf, self._memo = s

    def cells(self):
        """All elements (concrete shape), row-major."""
        if not self.concrete_shape():
            raise Unsupported('elements of an array of symbolic length')
        return [self.get(ix) for ix in itertools.product(*[range(d) for d in self._shape])]

    def concrete_shape(self):
        return all(dim_is_int(d) for d in self._shape)

    # -- attributes
    @property
    def shape(self): return self._shape
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        n = 1
        for d in self._shape: n = n * d
        return norm_dim(n)
    @property
    def dtype(self): return DT(self.kind())
    @property
    def T(self):
        if self.ndim < 2: return self
        return Arr(self._shape[::-1], lambda ix: self.get(ix[::-1]), self._dt, view_of=self)

    def kind(self):
        if self._dt is None:
            if 0 in self._shape:
                self._dt = 'f'
            else:
                if self._cells is not None:
                    self._dt = join_dtype(list(self._cells.values()))
                else:
                    v = self.get(tuple(0 if dim_is_int(d) else Sym(z3.Int('probe!%d' % i)) for i, d in enumerate(self._shape)))
                    self._dt = join_dtype([v])
        return self._dt

    def __len__(self):
        if not self._shape: raise TypeError('len() of unsized object')
        d = self._shape[0]
        if dim_is_int(d): return d
        raise Unsupported('len of symbolic array through the C protocol')

    def __iter__(self):
        if not self._shape: raise TypeError('iteration over a 0-d array')
        d = self._shape[0]
        if not dim_is_int(d):
            return iter(SymList.of_arr(self))
        return iter([self[i] for i in range(d)])

    def __bool__(self):
        if self.concrete_shape() and self.size == 1:
            return bool(self.cells()[0])
        if self.concrete_shape():
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        if bool(compare('==', self.size, 1)):
            return bool(self.get(tuple(0 for _ in self._shape)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def item_(self):
        return self.get(())

    def item(self):
        n = self.size
        if dim_is_int(n):
            if n != 1: raise ValueError('can only convert an array of size 1')
        elif not bool(compare('==', n, 1)):
            raise ValueError('can only convert an array of size 1')
        return self.get(tuple(0 for _ in self._shape))

    def __float__(self): return self.item()
    def __index__(self): return self.item().__index__()

    def copy(self):
        g = self.snap()
        return Arr(self._shape, g, self._dt)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, t, **k):
        kd = dtype_of(t)
        return convert(self, kd)

    def tolist(self):
        if self.ndim == 1:
            return [x for x in self]
        return [r.tolist() for r in self]

    def flatten(self, *a):
        if self.ndim == 1: return self.copy()
        return self.reshape(-1)
    def ravel(self, *a): return self.flatten()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        g = self.snap()
        if self.concrete_shape():
            n = self.size
            shape = list(int(s) for s in shape)
            if -1 in shape:
                k = math.prod(s for s in shape if s != -1)
                shape[shape.index(-1)] = n // k if k else 0
            if math.prod(shape) != n: raise ValueError('cannot reshape')
            cells = [g(ix) for ix in itertools.product(*[range(d) for d in self._shape])]
            it_ = iter(cells)
            tab = {ix: next(it_) for ix in itertools.product(*[range(d) for d in shape])}
            return Arr(tuple(shape), lambda ix: tab[ix], self._dt)
        if self.ndim == 1 and len(shape) == 1: return self.copy()
        if self.ndim == 1 and len(shape) == 2 and -1 in shape:
            if shape[0] == 1: return Arr((1, self._shape[0]), lambda ix: g((ix[1],)), self._dt)
            if shape[1] == 1: return Arr((self._shape[0], 1), lambda ix: g((ix[0],)), self._dt)
        if self.ndim == 2 and len(shape) == 1:
            if self._shape[0] == 1 and dim_is_int(self._shape[0]): return Arr((self._shape[1],), lambda ix: g((0, ix[0])), self._dt)
            if self._shape[1] == 1 and dim_is_int(self._shape[1]): return Arr((self._shape[0],), lambda ix: g((ix[0], 0)), self._dt)
        raise Unsupported('reshape of symbolic array')

    def transpose(self, *axes): return self.T if not axes else transpose(self, axes)
    def squeeze(self, axis=None): return squeeze(self, axis)

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def mutate(self, get):
        """Replace the element function (in-place modification)."""
        root = self.root()
        if root.frozen is not None:
            ctx().oblige('frame: argument %s is not modified' % root.frozen, z3.BoolVal(False))
        if self.view_of is not None:
            raise Unsupported('in-place modification through a view')
        if self.concrete_shape() and self._cells is not None:
            self._cells = {ix: get(ix) for ix in self._cells}
        else:
            self._getf = get
            self._memo = {}

    # -- arithmetic
    def __add__(self, o): return ew2(lambda a, b: a + b, self, o)
    def __radd__(self, o): return ew2(lambda a, b: a + b, o, self)
    def __sub__(self, o): return ew2(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return ew2(lambda a, b: a - b, o, self)
    def __mul__(self, o): return ew2(mul, self, o)
    def __rmul__(self, o): return ew2(mul, o, self)
    def __truediv__(self, o): return ew2(div, self, o)
    def __rtruediv__(self, o): return ew2(div, o, self)
    def __floordiv__(self, o): return ew2(lambda a, b: a // b, self, o)
    def __rfloordiv__(self, o): return ew2(lambda a, b: a // b, o, self)
    def __mod__(self, o): return ew2(lambda a, b: a % b, self, o)
    def __pow__(self, o): return ew2(spow, self, o)
    def __rpow__(self, o): return ew2(spow, o, self)
    def __neg__(self): return ew1(lambda a: -a, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ew1(sabs, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(asarr(o), self)
    def __lt__(self, o): return cmp2('<', self, o)
    def __le__(self, o): return cmp2('<=', self, o)
    def __gt__(self, o): return cmp2('>', self, o)
    def __ge__(self, o): return cmp2('>=', self, o)

    def __eq__(self, o):
        if o is None: return ew1(lambda a: False, self, 'b')
        return cmp2('==', self, o)

    def __ne__(self, o):
        if o is None: return ew1(lambda a: True, self, 'b')
        return cmp2('!=', self, o)

    def __and__(self, o): return ew2(lambda a, b: band(a, b), self, o, 'b')
    __rand__ = __and__
    def __or__(self, o): return ew2(lambda a, b: bor(a, b), self, o, 'b')
    __ror__ = __or__
    def __xor__(self, o): return ew2(lambda a, b: bxor(a, b), self, o, 'b')
    __rxor__ = __xor__

    def __invert__(self):
        return ew1(bnot, self, 'b')

    def _inplace(self, r):
        self.__dict__.pop('compressed', None)
        r = asarr(r)
        if not (len(r._shape) == len(self._shape) and all(dim_eq(p, q) for p, q in zip(r._shape, self._shape))):
            raise ValueError('non-broadcastable output operand')
        self.mutate(r.snap())
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    def __iand__(self, o): return self._inplace(self & o)
    def __ior__(self, o): return self._inplace(self | o)

    # -- methods mirroring functions
    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def prod(self, axis=None, **k): return prod(self, axis)
    def mean(self, axis=None, **k): return mean(self, axis)
    def min(self, axis=None, **k): return amin(self, axis)
    def max(self, axis=None, **k): return amax(self, axis)
    def any(self, axis=None, **k): return np_any(self, axis)
    def all(self, axis=None, **k): return np_all(self, axis)
    def cumsum(self, axis=None, **k): return cumsum(self, axis)
    def argsort(self, **k): return argsort(self)
    def argmin(self, axis=None, **k): return argmin(self, axis)
    def argmax(self, axis=None, **k): return argmax(self, axis)
    def dot(self, o): return matmul(self, asarr(o))
    def std(self, *a, **k): raise Unsupported('std')
    def var(self, *a, **k): raise Unsupported('var')
    def searchsorted(self, v, side='left', sorter=None): return searchsorted(self, v, side)
    def nonzero(self): return where(self)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def clip(self, a, b): return clip(self, a, b)
    def fill(self, v):
        v = numify(v)
        self.mutate(lambda ix: v)

    def sort(self, *a, **k):
        r = sort(self)
        self.mutate(r.snap())

    def __repr__(self):
        return 'Arr%r' % (self._shape,)


class DT:
    def __init__(self, kind): self.kind = kind
    def __eq__(self, o): return dtype_of(o) == self.kind
    def __hash__(self): return hash(self.kind)


def plain(x):
    """Real-Python iterables -> list."""
    if isinstance(x, (range,)) or isinstance(x, (zip, map, filter, enumerate)) or isinstance(x, _types.GeneratorType) or isinstance(x, reversed):
        return list(x)
    return x


def numify(x):
    if isinstance(x, Arr) and x._shape == (): return x.item_()
    if x is None: return None
    if isinstance(x, (Sym, int, float, Fraction, bool)): return x
    if type(x).__module__ == 'numpy' and hasattr(x, 'item'): return x.item()
    return x


def kind_of(x):
    if isinstance(x, Sym):
        return 'b' if x.is_bool() else ('i' if x.is_int() else 'f')
    if isinstance(x, bool): return 'b'
    if isinstance(x, int): return 'i'
    if isinstance(x, (float, Fraction)): return 'f'
    return 'O'


def join_dtype(xs):
    ks = {kind_of(x) for x in xs}
    for k in 'Ofib':
        if k in ks: return k
    return 'f'


def dtype_of(t):
    if t is None: return None
    if isinstance(t, DT): return t.kind
    if isinstance(t, str):
        return {'f': 'f', 'i': 'i', 'b': 'b', 'u': 'i'}.get(t[0], 'f')
    nm = getattr(t, '__name__', str(t))
    if 'bool' in nm.lower(): return 'b'
    if 'int' in nm.lower(): return 'i'
    if 'object' in nm.lower(): return 'O'
    return 'f'


def conv_scalar(x, kd):
    if kd == 'f':
        if isinstance(x, bool): return int(x)
        if isinstance(x, Sym) and not z3.is_real(x.e): return Sym(to_real(x.e), x.bad)
        return x
    if kd == 'i':
        if isinstance(x, bool): return int(x)
        if isinstance(x, Sym):
            if x.is_bool(): return Sym(core.to_int(x.e), x.bad)
            if x.is_int(): return x
            return trunc_int(x)
        if isinstance(x, (float, Fraction)): return int(x)
        return x
    if kd == 'b':
        if isinstance(x, Sym): return x if x.is_bool() else x != 0
        return bool(x)
    return x


def trunc_int(x):
    e = to_real(x.e)
    s = z3.simplify(e)
    if z3.is_to_real(s): return Sym(s.arg(0), x.bad)
    return Sym(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)), x.bad)


def convert(a, kd):
    if not isinstance(a, Arr):
        return conv_scalar(a, kd)
    g = a.snap()
    return Arr(a._shape, lambda ix: conv_scalar(g(ix), kd), kd)


def mul(a, b):
    if isinstance(a, bool): a = int(a)
    if isinstance(b, bool): b = int(b)
    return a * b


def div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    if is_num(a) and is_num(b):
        if b == 0:
            return float('nan') if (a == 0 or a != a) else math.copysign(INF, a) * (math.copysign(1, b) if isinstance(b, float) else 1)
        if is_finite_num(a) and is_finite_num(b):
            q = core.frac(a) / core.frac(b)
            return q
    return a / b


def band(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym): return core.logic('and', a, b)
    return a & b


def bor(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym): return core.logic('or', a, b)
    return a | b


def bxor(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym): return core.logic('xor', a, b)
    return a ^ b


def bnot(a):
    if isinstance(a, Sym): return ~a
    if isinstance(a, bool): return not a
    return ~a


def asarr(x):
    x = plain(x)
    if isinstance(x, Arr): return x
    if isinstance(x, (list, tuple)): return Arr.from_list(x)
    if isinstance(x, SymList): return x.to_arr()
    x = numify(x)
    return Arr((), lambda ix: x, kind_of(x))


def pick(items, i, f):
    if type(i) is int:
        return f(items[i])
    out = None
    for j in reversed(range(len(items))):
        v = f(items[j])
        out = v if out is None else ite(compare('==', i, j), v, out)
    if out is None: raise IndexError
    return out


def bcast_shape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for p in range(n):
        ds = [s[p - n + len(s)] for s in shapes if p - n + len(s) >= 0]
        d = 1
        for x in ds:
            if dim_is_int(d) and d == 1:
                d = x
            elif dim_is_int(x) and x == 1:
                pass
            elif not dim_eq(d, x):
                # numpy also broadcasts when a symbolic length happens to be one
                raise ValueError('operands could not be broadcast together')
            elif dim_is_int(x):
                d = x
        out.append(d)
    return tuple(out)


def bidx(shape, ix):
    off = len(ix) - len(shape)
    return tuple(0 if (dim_is_int(d) and d == 1) else ix[off + p] for p, d in enumerate(shape))


def ew1(f, a, dt=None):
    if not isinstance(a, Arr):
        a = plain(a)
        if isinstance(a, (list, tuple, SymList)): a = asarr(a)
        else: return f(numify(a))
    g = a.snap()
    return keep_mask(Arr(a._shape, lambda ix: f(g(ix)), dt), f, [a])


def keep_mask(r, f, arrs):
    """an elementwise result of entries selected by one mask is the selection of the elementwise result"""
    sel = [a for a in arrs if isinstance(a, Arr) and a.ndim]
    if sel and r._shape and len(r._shape) == 1 and all(hasattr(a, 'compressed') and a.comp_o is sel[0].comp_o for a in sel):
        gs = [a.compressed[2] if a.ndim else (lambda v: (lambda ix: v))(a.get(())) for a in arrs]
        r.compressed = (None, sel[0].compressed[1], lambda ix: f(*[g(ix) for g in gs]))
        r.comp_o = sel[0].comp_o
    return r


def ewn(f, args, dt=None):
    if not any(isinstance(a, (Arr, list, tuple, SymList)) for a in args):
        return f(*[numify(a) for a in args])
    arrs = [asarr(a) for a in args]
    sh = bcast_shape(*[a._shape for a in arrs])
    gs = [(a._shape, a.snap()) for a in arrs]
    r = Arr(sh, lambda ix: f(*[g(bidx(s, ix)) for s, g in gs]), dt)
    return keep_mask(r, f, arrs) if sh != () else r.item_()


def ew2(f, a, b, dt=None):
    if not (isinstance(a, (Arr, list, tuple, SymList, Sym)) or is_num(a)) or not (isinstance(b, (Arr, list, tuple, SymList, Sym)) or is_num(b)):
        return NotImplemented
    return ewn(f, (a, b), dt)


def cmp2(op, a, b):
    return ew2(lambda x, y: compare(op, x, y) if not (x is None or y is None) else (op == '!=') , a, b, 'b')


# ---------------------------------------------------------------- indexing
def norm_scalar_index(i, n):
    """Python/numpy index -> nonnegative index, raising IndexError when out of range."""
    if type(i) is int and dim_is_int(n):
        if not -n <= i < n: raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
        return i + n if i < 0 else i
    if type(i) is int:
        if not ctx().generic_stack or True:
            ok = compare('<', i, n) if i >= 0 else compare('<=', -i, n)
            if not bool(ok) : raise IndexError
        return i if i >= 0 else norm_idx(n + i)
    c = ctx()
    ne = ie(n)
    if c.entails(i.e >= 0):
        if not bool(Sym(i.e < ne)): raise IndexError
        return i
    if c.generic_stack:
        j = z3.If(i.e < 0, i.e + ne, i.e)
        if not bool(Sym(z3.And(j >= 0, j < ne))): raise IndexError
        return Sym(j)
    if bool(Sym(i.e >= 0)):
        if not bool(Sym(i.e < ne)): raise IndexError
        return i
    if not bool(Sym(i.e + ne >= 0)): raise IndexError
    return Sym(z3.simplify(i.e + ne))


def norm_idx(x):
    return norm_dim(x)


def slice_bounds(s, n):
    """(start, length, step) of a slice over a (possibly symbolic) length."""
    step = 1 if s.step is None else as_index(s.step)
    if not type(step) is int: raise Unsupported('symbolic slice step')
    if dim_is_int(n) and all(x is None or type(as_index(x)) is int for x in (s.start, s.stop)):
        st, sp, stp = slice(None if s.start is None else as_index(s.start), None if s.stop is None else as_index(s.stop), step).indices(n)
        return st, len(range(st, sp, stp)), stp

    def clampi(x, lo, hi):
        # x int/Sym -> clamped
        if isinstance(x, int):
            if x < 0:
                y = n + x
                return norm_dim(smax2(y, lo)) if not known_ge(y, lo) else norm_dim(y)
            if known_ge(n, x): return x
            return norm_dim(smin2(x, hi))
        y = x
        if not known_ge(x, 0):
            y = ite(compare('<', x, 0), smax2(x + n, lo), x)
        if not known_ge(n, y):
            y = smin2(y, hi)
        return norm_dim(y)
    if step == 1:
        a = 0 if s.start is None else clampi(as_index(s.start), 0, n)
        b = n if s.stop is None else clampi(as_index(s.stop), 0, n)
        ln = norm_dim(b - a)
        if not known_ge(ln, 0):
            ln = norm_dim(smax2(ln, 0))
        return a, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return norm_dim(n - 1), n, -1
    raise Unsupported('slice with step on a symbolic length')


def known_ge(a, b):
    r = compare('>=', a, b)
    if isinstance(r, bool): return r
    return ctx().proves(r.e)


def getitem(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(conv_key(k) for k in key)
    # boolean mask spanning the whole array
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind() == 'b' and key[0].ndim >= 1:
        return mask_select(a, key[0])
    # np.newaxis / ellipsis handling
    n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if not isinstance(k, Arr)]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (a.ndim - n_real) + key[p + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - n_real)
    if sum(1 for k in key if k is not None) > a.ndim:
        raise IndexError('too many indices for array')
    # masks within a tuple -> index arrays
    key2, ax = [], 0
    for k in key:
        if k is None:
            key2.append(k); continue
        if isinstance(k, Arr) and k.kind() == 'b':
            k = where(k)[0]
        key2.append(k); ax += 1
    key = tuple(key2)
    adv = [k for k in key if isinstance(k, Arr)]
    plan, shape, ax = [], [], 0       # plan: per source axis a function from result index to source index
    if adv:
        if any(k is None for k in key): raise Unsupported('newaxis with advanced indexing')
        bsh = bcast_shape(*[k._shape for k in adv])
        pos = [i for i, k in enumerate(key) if isinstance(k, Arr) or not isinstance(k, slice)]
        advpos = [i for i, k in enumerate(key) if not isinstance(k, slice)]
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        first = advpos[0] if contiguous else 0
        pre = [i for i in range(len(key)) if isinstance(key[i], slice) and (i < first)] if contiguous else []
        post = [i for i in range(len(key)) if isinstance(key[i], slice) and i not in pre]
        sl = {}
        for i in pre + post:
            sl[i] = slice_bounds(key[i], a._shape[i])
        shape = [sl[i][1] for i in pre] + list(bsh) + [sl[i][1] for i in post]
        nb = len(bsh)
        src = a.snap()
        gets = {}
        for i in advpos:
            if isinstance(key[i], Arr):
                nonneg = check_gather(key[i], a._shape[i])
                gets[i] = (key[i]._shape, key[i].snap(), nonneg)
            else:
                gets[i] = norm_scalar_index(key[i], a._shape[i])

        def g(ix):
            bi = ix[len(pre):len(pre) + nb]
            out = []
            for i in range(len(key)):
                if i in gets:
                    if isinstance(gets[i], tuple):
                        v = gets[i][1](bidx(gets[i][0], bi))
                        out.append(as_index(v) if gets[i][2] else wrap_index(as_index(v), a._shape[i]))
                    else:
                        out.append(gets[i])
                else:
                    p = ix[pre.index(i)] if i in pre else ix[len(pre) + nb + post.index(i)]
                    st, ln, step = sl[i]
                    out.append(norm_idx(st + p * step) if step != 1 else norm_idx(st + p))
            return src(tuple(out))
        return Arr(tuple(shape), g, a._dt)
    for k in key:
        if k is None:
            shape.append(1); plan.append(None); continue
        n = a._shape[ax]
        if isinstance(k, slice):
            st, ln, step = slice_bounds(k, n)
            plan.append(('s', len(shape), st, step)); shape.append(ln)
        else:
            plan.append(('i', norm_scalar_index(k, n)))
        ax += 1

    def g(ix):
        out = []
        for p in plan:
            if p is None: continue
            if p[0] == 'i': out.append(p[1])
            else:
                _, r, st, step = p
                j = ix[r]
                out.append(norm_idx(st + j * step) if not (type(st) is int and st == 0 and step == 1) else j)
        return a.get(tuple(out))
    if not shape:
        return g(())
    return Arr(tuple(shape), g, a._dt, view_of=a)


def wrap_index(v, n):
    if type(v) is int:
        return v if v >= 0 else norm_idx(n + v)
    if ctx().entails(v.e >= 0): return v
    return Sym(z3.If(v.e < 0, v.e + ie(n), v.e))


def conv_key(k):
    k = plain(k)
    if k is None or isinstance(k, slice) or k is Ellipsis: return k
    if isinstance(k, (list, SymList)): return asarr(k)
    if isinstance(k, Arr):
        if k._shape == (): return as_index(k.item_()) if k.kind() != 'b' else k
        return k
    if isinstance(k, bool): return asarr([k]) if False else int(k)
    if isinstance(k, Sym) and k.is_bool(): raise Unsupported('boolean scalar index')
    return as_index(k)


def check_gather(idx, n):
    """Every entry of an index array is within bounds (negative entries count from the end)."""
    c = ctx()
    if idx.concrete_shape():
        for v in idx.cells():
            v = as_index(v)
            if type(v) is int and dim_is_int(n):
                if not -n <= v < n: raise IndexError
            else:
                cond = z3.And(ie(v) >= -ie(n), ie(v) < ie(n))
                if not c.entails(cond):
                    if not bool(Sym(cond)): raise IndexError
        return
    ks = [c.int('gi') for _ in idx._shape]
    hyp = z3.And(*[z3.And(k.e >= 0, k.e < ie(d)) for k, d in zip(ks, idx._shape)])
    v = as_index(idx.get(tuple(ks)))
    c.oblige('indices within bounds', z3.Implies(hyp, z3.And(ie(v) >= -ie(n), ie(v) < ie(n))))
    c.solver.push()
    g0, k0, f0 = dict(c.grounded), dict(c.known), len(c.facts)
    c.solver.add(hyp)
    c.ground(ie(v))
    r = c.solver.check(ie(v) < 0) == z3.unsat
    c.solver.pop()
    del c.facts[f0:]
    c.grounded, c.known = g0, k0
    return r


def setitem(a, key, val):
    old = a.snap()
    if not isinstance(key, tuple): key = (key,)
    key = tuple(conv_key(k) for k in key)
    val = plain(val)
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind() == 'b':
        m = key[0]
        mg = m.snap()
        nd = m.ndim
        if isinstance(val, (Arr, list, tuple, SymList)):
            va = asarr(val)
            if va._shape == ():
                v = va.item_()
                a.mutate(lambda ix: ite_bool(mg(ix[:nd]), v, old(ix)))
                return
            # numpy assigns the values in the row-major order of the selected positions
            if m.concrete_shape():
                cells = [(ix, m.get(ix)) for ix in itertools.product(*[range(d) for d in m._shape])]
                pos, cnt = {}, 0
                for ix, b in cells:
                    if bool(b):
                        pos[ix] = cnt; cnt += 1
                vn = va._shape[0]
                if not dim_eq(vn, cnt) and not dim_eq(vn, 1): raise ValueError('shape mismatch')
                vg = va.snap()
                a.mutate(lambda ix: vg((pos[ix] if not (dim_is_int(vn) and vn == 1) else 0,)) if ix in pos else old(ix))
                return
            if m.ndim == 2 and diag_mask(m):
                vg = va.snap()
                a.mutate(lambda ix: ite(compare('==', ix[0], ix[1]), vg((ix[0],)), old(ix)))
                return
            sel = compress_info(m)
            if m.ndim != 1: raise Unsupported('masked assignment')
            vg = va.snap()
            if not dim_eq(va._shape[0], sel.count): raise ValueError
            a.mutate(lambda ix: ite_bool(mg(ix), vg((sel.inv(ix[0]),)), old(ix)))
            return
        v = numify(val)
        a.mutate(lambda ix: ite_bool(mg(ix[:nd]), v, old(ix)))
        return
    if any(isinstance(k, Arr) for k in key):
        if all(isinstance(k, Arr) and k.concrete_shape() for k in key) and len(key) == 1 and key[0].ndim == 1:
            va = asarr(val)
            for j, k in enumerate(key[0].cells()):
                setitem(a, k, va if va.ndim < a.ndim else va[j])
            return
        raise Unsupported('assignment through index arrays')
    if any(k is None or k is Ellipsis for k in key): raise Unsupported('assignment index')
    key = key + (slice(None),) * (a.ndim - len(key))
    spec, shape = [], []
    for k, n in zip(key, a._shape):
        if isinstance(k, slice):
            st, ln, step = slice_bounds(k, n)
            if step != 1: raise Unsupported('assignment to a stepped slice')
            spec.append(('s', st, ln)); shape.append(ln)
        else:
            spec.append(('i', norm_scalar_index(k, n)))
    va = asarr(val)
    bcast_shape(tuple(shape), va._shape)
    vg = va.snap()

    def g(ix):
        cond, src = True, []
        for s, i in zip(spec, ix):
            if s[0] == 'i':
                cond = cand(cond, compare('==', i, s[1]))
            else:
                cond = cand(cand(cond, compare('>=', i, s[1])), compare('<', i, s[1] + s[2]))
                src.append(norm_idx(i - s[1]))
        if cond is False: return old(ix)
        if cond is True: return vg(bidx(va._shape, tuple(src)))
        return ite(cond, vg(bidx(va._shape, tuple(src))), old(ix))
    a.mutate(g)


def cand(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return core.logic('and', a, b)


def ite_bool(c, a, b):
    if isinstance(c, Sym): return ite(c, a, b)
    return a if c else b


def diag_mask(m):
    """Is the mask exactly the diagonal?  (proved with the quick solver)"""
    c = ctx()
    i, j = z3.Int('dm!i'), z3.Int('dm!j')
    v = m.get((Sym(i), Sym(j)))
    if not isinstance(v, Sym): return False
    hyp = z3.And(i >= 0, j >= 0, i < ie(m._shape[0]), j < ie(m._shape[1]))
    s = z3.Solver(); s.set('timeout', 1000)
    s.add(hyp, z3.Not(v.e == (i == j)))
    return s.check() == z3.unsat


# ---------------------------------------------------------------- masks with symbolic length
class Compress:
    pass


def compress_info(m):
    """Selection of the true positions of a mask of symbolic length: count, sel (increasing enumeration)
    and its inverse."""
    c = ctx()
    n = m._shape[0]
    g = m.snap()
    K = z3.Int('cmp!K')
    probe = g((Sym(K),))
    key = ('compress', lift(probe).get_id() if isinstance(probe, Sym) else probe, ie(n).get_id(), tuple(p.get_id() for p in c.placeholders()))
    if key in c.memo: return c.memo[key][0]
    if not c.generic_stack:
        # a mask equivalent to an earlier one selects the same positions
        for n0, g0, o0 in getattr(c, 'masks', []):
            if not dim_eq(n0, n): continue
            k0 = z3.Int('cmp!K')
            p0 = g0((Sym(k0),))
            asb_ = lambda x: z3.BoolVal(bool(x)) if not isinstance(x, Sym) else x.e
            if c.proves(z3.Implies(z3.And(k0 >= 0, k0 < ie(n)), asb_(p0) == asb_(probe))):
                c.memo[key] = (o0, probe)
                return o0
    o = Compress()
    selF, self_ = c.fun('sel', 1, I)
    invF, inv_ = c.fun('inv', 1, I)
    cnt = c.int('cnt')
    ne = ie(n)

    def holds(k):
        v = g((Sym(k),))
        return lift(v)
    c.assume(Sym(z3.And(cnt.e >= 0, cnt.e <= ne)))
    c.schema(1, lambda j: z3.Implies(z3.And(j >= 0, j < cnt.e), z3.And(selF(j) >= 0, selF(j) < ne, holds(selF(j)), invF(selF(j)) == j)), {self_.name()}, 'sel')
    c.schema(1, lambda k: z3.Implies(z3.And(k >= 0, k < ne, holds(k)), z3.And(invF(k) >= 0, invF(k) < cnt.e, selF(invF(k)) == k)), None, 'inv')
    c.schema(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < cnt.e), selF(i) < selF(j)), {self_.name()}, 'selmono')
    c.schema(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < ne, holds(i), holds(j)), invF(i) < invF(j)), {inv_.name()}, 'invmono')
    o.count, o.sel, o.inv = norm_dim(cnt), (lambda j: Sym(selF(ie(j)))), (lambda k: Sym(invF(ie(k))))
    o.holds, o.n = holds, n
    if not c.generic_stack:
        # a first or last position that certainly holds is selected first or last
        b = lambda k: z3.BoolVal(holds(k)) if isinstance(holds(k), bool) else holds(k)
        if c.entails(z3.And(ne >= 1, b(z3.IntVal(0)))): c.assume(Sym(z3.And(cnt.e >= 1, selF(0) == 0, invF(0) == 0)))
        if c.entails(z3.And(ne >= 1, b(ne - 1))): c.assume(Sym(z3.And(cnt.e >= 1, selF(cnt.e - 1) == ne - 1, invF(ne - 1) == cnt.e - 1)))
    c.memo[key] = (o, probe)
    if not c.generic_stack:
        c.masks = getattr(c, 'masks', []) + [(n, g, o)]
    return o


def mask_select(a, m):
    for d, e in zip(m._shape, a._shape):
        if not dim_eq(d, e): raise IndexError('boolean index did not match')
    if m.concrete_shape():
        pos = [ix for ix in itertools.product(*[range(d) for d in m._shape]) if truth(m.get(ix))]
        rest = a._shape[m.ndim:]
        g = a.snap()
        return Arr((len(pos),) + rest, lambda ix: pick(pos, ix[0], lambda p: g(p + ix[1:])), a._dt)
    if m.ndim != 1: raise Unsupported('mask of symbolic shape in two dimensions')
    if m.get((Sym(z3.Int('cmp!K')),)) is True: return a.copy()
    o = compress_info(m)
    g = a.snap()
    r = Arr((o.count,) + a._shape[1:], lambda ix: g((o.sel(ix[0]),) + ix[1:]), a._dt)
    r.compressed, r.comp_o = (a, m, g), o
    return r


def truth(b):
    return bool(b)


# ---------------------------------------------------------------- reductions
def axis_iter(a, axis, f, nd_dtype=None):
    """Apply a 1-d reduction f (Arr -> scalar) along an axis."""
    axis = axis % a.ndim
    sh = a._shape[:axis] + a._shape[axis + 1:]
    src = a.copy()
    def g(ix):
        return f(Arr((a._shape[axis],), lambda k: src.get(ix[:axis] + (k[0],) + ix[axis:]), a._dt))
    r = Arr(sh, g, nd_dtype)
    return r if sh != () else r.item_()


def reduce_(a, axis, f, f0, keepdims=False, **kw):
    a = asarr(a)
    if axis is None:
        if a.ndim == 0: return f0(a.item_())
        if a.ndim == 1: return f(a)
        if a.concrete_shape(): return f(a.reshape(-1))
        # fold axis by axis
        r = a
        while isinstance(r, Arr) and r.ndim > 0:
            r = axis_iter(r, -1, f) if r.ndim > 1 else f(r)
        return r
    if isinstance(axis, tuple):
        for x in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_(a, x, f, f0)
        return a
    axis = as_index(axis)
    if a.ndim == 0: return a.item_()
    if a.ndim == 1: r = f(a)
    else: r = axis_iter(a, axis, f)
    if keepdims:
        r = expand_dims(asarr(r), axis % a.ndim)
    return r


def sum1(a):
    if hasattr(a, 'compressed'):
        src, m, g = a.compressed
        mg = m.snap()
        return sum1(Arr((m._shape[0],), lambda ix: ite_bool(mg(ix), g(ix), 0)))
    n = a._shape[0]
    if dim_is_int(n):
        s = 0
        for i in range(n):
            v = a.get((i,))
            s = s + (int(v) if isinstance(v, bool) else v)
        return s if not (isinstance(s, Sym) and s.is_bool()) else Sym(core.to_int(s.e), s.bad)
    return ctx_sum(a.snap(), n)


def prefix_sum(g):
    """(function k -> sum of g(0..k-1))"""
    return lambda k: ctx_sum(lambda ix: g(ix), k)


def ctx_sum(g, n):
    """sum_{0<=k<n} g(k) for symbolic n, split linearly into memoised atomic sums."""
    c = ctx()
    K = z3.Int('sum!K%d' % len(c.generic_stack))
    c.generic_stack.append((K, [K >= 0, K < ie(n)]))
    try:
        v = g((Sym(K),))
    finally:
        c.generic_stack.pop()
    if not isinstance(v, Sym):
        v = int(v) if isinstance(v, bool) else v
        if is_finite_num(v): return n * v
        raise Unsupported('sum of non-finite terms')
    if v.bad is not None and not z3.is_false(v.bad):
        j = c.int('sj')
        hyp = z3.And(j.e >= 0, j.e < ie(n))
        c.oblige('summands are defined', z3.Implies(hyp, z3.Not(z3.substitute(v.bad, (K, j.e)))))
    e = v.e
    if z3.is_bool(e): e = core.to_int(e)
    isint = z3.is_int(e)
    total = None
    for coef, atom in linear_split(e, K):
        if atom is None:
            t = arith('*', Sym(coef), n)
        else:
            t = arith('*', Sym(coef), atomic_sum(atom, K, n, isint))
        total = t if total is None else total + t
    return 0 if total is None else total


def contains(e, K):
    seen = set()
    st = [e]
    kid = K.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i == kid: return True
        st.extend(x.children())
    return False


def linear_split(e, K):
    """e = sum coef_i * atom_i with coef_i free of K (atom None = 1)."""
    e = z3.simplify(e, som=True, hoist_ite=False) if True else e
    out = []
    one = z3.IntVal(1) if z3.is_int(e) else z3.RealVal(1)

    def go(x, coef):
        if not contains(x, K):
            out.append((mulz(coef, x), None)); return
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            for ch in x.children(): go(ch, coef)
        elif k == z3.Z3_OP_SUB:
            ch = x.children(); go(ch[0], coef)
            for y in ch[1:]: go(y, mulz(coef, z3.IntVal(-1) if z3.is_int(e) else z3.RealVal(-1)))
        elif k == z3.Z3_OP_UMINUS:
            go(x.arg(0), mulz(coef, z3.IntVal(-1) if z3.is_int(e) else z3.RealVal(-1)))
        elif k == z3.Z3_OP_MUL:
            free = [y for y in x.children() if not contains(y, K)]
            dep = [y for y in x.children() if contains(y, K)]
            c2 = coef
            for y in free: c2 = mulz(c2, y)
            if len(dep) == 1: go(dep[0], c2)
            else: out.append((c2, z3.simplify(z3.Product(*dep) if len(dep) > 1 else dep[0])))
        elif k == z3.Z3_OP_DIV and not contains(x.arg(1), K):
            go(x.arg(0), mulz(coef, 1 / x.arg(1)))
        elif k == z3.Z3_OP_TO_REAL and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
            out.append((coef, x))
        else:
            out.append((coef, x))
    go(e, one)
    # group equal atoms
    grp = {}
    for cf, at in out:
        key = at.get_id() if at is not None else None
        if key in grp: grp[key] = (z3.simplify(grp[key][0] + cf), at)
        else: grp[key] = (cf, at)
    return [v for v in grp.values() if not (concrete(z3.simplify(v[0])) == 0 and concrete(z3.simplify(v[0])) is not None)]


def mulz(a, b):
    ca, cb = concrete(a), concrete(b)
    if ca == 1 and ca is not None and not isinstance(ca, bool): return b
    if cb == 1 and cb is not None and not isinstance(cb, bool): return a
    if z3.is_int(a) and z3.is_real(b): a = z3.ToReal(a)
    if z3.is_real(a) and z3.is_int(b): b = z3.ToReal(b)
    return a * b


def atomic_sum(atom, K, n, isint):
    c = ctx()
    # constants (ite-free handled by linear_split)
    cK = z3.Int('sum!canon')
    a = z3.substitute(atom, (K, cK))
    phs = c.placeholders()
    # canonicalise active placeholders and all their ground instances through function arguments
    key = a.get_id()
    if key not in c.sums:
        used = [p for p in phs if contains(a, p)]
        nm = 'Sum!%d' % len(c.sums)
        F = z3.Function(nm, *([p.sort() for p in used] + [I, I if isint else R]))
        c.sums[key] = (F, a, used, cK)
        zero = z3.IntVal(0) if isint else z3.RealVal(0)

        def step(*idx):
            ps, j = idx[:-1], idx[-1]
            el = z3.substitute(a, *([(p, q) for p, q in zip(used, ps)] + [(cK, j)])) if True else a
            return z3.And(z3.Implies(j == 0, F(*ps, j) == zero), z3.Implies(j > 0, F(*ps, j) == F(*ps, j - 1) + z3.substitute(a, *([(p, q) for p, q in zip(used, ps)] + [(cK, j - 1)]))))
        from .core import Schema
        sch = Schema(1 + len(used), step, {nm}, name='sum-step')
        sch.sum = True
        c.schemas.append(sch)
    F, a0, used, _ = c.sums[key]
    return Sym(F(*used, ie(n)))


def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    if isinstance(axis, bool): axis = int(axis)
    return reduce_(a, axis, sum1, lambda x: x, keepdims)


def nansum1(a):
    g = a.snap()
    return sum1(Arr(a._shape, lambda ix: nan_to(g(ix), 0)))


def nan_to(x, v):
    if isinstance(x, Sym):
        if x.bad is None: return x
        return ite(Sym(x.bad), v, Sym(x.e))
    if isinstance(x, float) and x != x: return v
    return x


def nansum(a, axis=None, **kw): return reduce_(a, axis, nansum1, lambda x: nan_to(x, 0))


def prod1(a):
    n = a._shape[0]
    if not dim_is_int(n): raise Unsupported('product of symbolic length')
    s = 1
    for i in range(n): s = s * a.get((i,))
    return s


def prod(a, axis=None, **kw): return reduce_(a, axis, prod1, lambda x: x)


def mean1(a):
    n = a._shape[0]
    return div(sum1(a), n)


def mean(a, axis=None, **kw):
    a = asarr(a)
    if axis is None and a.ndim > 1:
        return div(np_sum(a), a.size)
    return reduce_(a, axis, mean1, lambda x: x)


def extremum(a, sgn):
    n = a._shape[0]
    if dim_is_int(n):
        if n == 0: raise ValueError('zero-size array to reduction operation has no identity')
        r = a.get((0,))
        for i in range(1, n): r = smin2(r, a.get((i,))) if sgn < 0 else smax2(r, a.get((i,)))
        return r
    c = ctx()
    if not bool(compare('>', n, 0)): raise ValueError('zero-size array to reduction operation has no identity')
    g = a.snap()
    K = z3.Int('ext!K')
    pr = g((Sym(K),))
    if not isinstance(pr, Sym): return pr
    key = ('ext', sgn, lift(pr).get_id(), ie(n).get_id())
    if key in c.memo: return c.memo[key][0]
    if pr.bad is not None:
        j = c.int('ej')
        c.oblige('elements are defined', z3.Implies(z3.And(j.e >= 0, j.e < ie(n)), z3.Not(z3.substitute(pr.bad, (K, j.e)))))
    w = c.int('arg%s' % ('min' if sgn < 0 else 'max'))
    m = Sym(lift(g((w,))))
    c.assume(Sym(z3.And(w.e >= 0, w.e < ie(n))))

    def body(k):
        v = lift(g((Sym(k),)))
        return z3.Implies(z3.And(k >= 0, k < ie(n)), (m.e <= v) if sgn < 0 else (m.e >= v))
    c.schema(1, body, core.app_functions_with(lift(pr), [K]) or None, 'extremum')
    c.memo[key] = (m, pr)
    return m


def amin(a, axis=None, **kw): return reduce_(a, axis, lambda x: extremum(x, -1), lambda x: x)
def amax(a, axis=None, **kw): return reduce_(a, axis, lambda x: extremum(x, 1), lambda x: x)


def quant(a, univ):
    """all (univ) / any of a boolean vector."""
    n = a._shape[0]
    if dim_is_int(n):
        r = univ
        for i in range(n):
            v = a.get((i,))
            v = v if (isinstance(v, bool) or (isinstance(v, Sym) and v.is_bool())) else (v != 0)
            r = (band if univ else bor)(r, v)
        return r
    c = ctx()
    g = a.snap()
    K = z3.Int('q!K')
    pr = g((Sym(K),))
    if not isinstance(pr, Sym):
        if bool(pr) == univ: return univ
        return compare('==', n, 0) if univ else compare('>', n, 0)
    if not pr.is_bool(): return quant(ew1(lambda v: v != 0, a, 'b'), univ)
    if pr.bad is not None:
        j = c.int('qj')
        c.oblige('elements are defined', z3.Implies(z3.And(j.e >= 0, j.e < ie(n)), z3.Not(z3.substitute(pr.bad, (K, j.e)))))
    key = ('quant', univ, pr.e.get_id(), ie(n).get_id())
    if key in c.memo: return c.memo[key][0]
    b = c.bool('all' if univ else 'any')
    w = c.int('wit')
    at_w = lift(g((w,)))
    inr = z3.And(w.e >= 0, w.e < ie(n))
    trig = core.app_functions_with(pr.e, [K]) or None
    if univ:
        c.assume(Sym(z3.Or(b.e, z3.And(inr, z3.Not(at_w)))))
        c.schema(1, lambda k: z3.Implies(z3.And(b.e, k >= 0, k < ie(n)), lift(g((Sym(k),)))), trig, 'all')
    else:
        c.assume(Sym(z3.Or(z3.Not(b.e), z3.And(inr, at_w))))
        c.schema(1, lambda k: z3.Implies(z3.And(z3.Not(b.e), k >= 0, k < ie(n)), z3.Not(lift(g((Sym(k),))))), trig, 'any')
    c.memo[key] = (b, pr)
    return b


def np_all(a, axis=None, **kw): return reduce_(a, axis, lambda x: quant(x, True), lambda x: x if not is_num(x) else bool(x))
def np_any(a, axis=None, **kw): return reduce_(a, axis, lambda x: quant(x, False), lambda x: x if not is_num(x) else bool(x))


def cumsum(a, axis=None, **kw):
    a = asarr(a)
    if axis is None and a.ndim != 1: a = a.reshape(-1); axis = 0
    axis = 0 if axis is None else axis % a.ndim
    g = a.snap()
    if a.concrete_shape():
        def h(ix):
            s = 0
            for k in range(ix[axis] + 1): s = s + g(ix[:axis] + (k,) + ix[axis + 1:])
            return s
        # eager, sharing prefixes
        tab = {}
        for ix in itertools.product(*[range(d) for d in a._shape]):
            prev = ix[:axis] + (ix[axis] - 1,) + ix[axis + 1:]
            tab[ix] = g(ix) if ix[axis] == 0 else tab[prev] + g(ix)
        return Arr(a._shape, lambda ix: tab[ix])
    if dim_is_int(a._shape[axis]):
        def h2(ix):
            s = 0
            for k in range(a._shape[axis]):
                s = s + ite(compare('<=', k, ix[axis]), g(ix[:axis] + (k,) + ix[axis + 1:]), 0)
            return s
        return Arr(a._shape, h2)
    return Arr(a._shape, lambda ix: ctx_sum(lambda k: g(ix[:axis] + (k[0],) + ix[axis + 1:]), norm_dim(ix[axis] + 1)))


def cumprod(a, axis=None): 
    a = asarr(a)
    if a.ndim != 1 or not a.concrete_shape(): raise Unsupported('cumprod')
    out, p = [], 1
    for x in a.cells():
        p = p * x; out.append(p)
    return Arr.from_list(out)


def argext(a, sgn):
    n = a._shape[0]
    if dim_is_int(n):
        if n == 0: raise ValueError('attempt to get argmin of an empty sequence')
        best, bi = a.get((0,)), 0
        for i in range(1, n):
            v = a.get((i,))
            c = compare('<' if sgn < 0 else '>', v, best)
            bi = ite_bool(c, i, bi); best = ite_bool(c, v, best)
        return bi
    c = ctx()
    if not bool(compare('>', n, 0)): raise ValueError('attempt to get argmin of an empty sequence')
    w = c.int('argext')
    g = a.snap()
    m = lift(g((w,)))
    c.assume(Sym(z3.And(w.e >= 0, w.e < ie(n))))
    K = z3.Int('ax!K')
    trig = core.app_functions_with(lift(g((Sym(K),))), [K]) or None
    def body(k):
        v = lift(g((Sym(k),)))
        return z3.Implies(z3.And(k >= 0, k < ie(n)), z3.And((m <= v) if sgn < 0 else (m >= v), z3.Implies(k < w.e, (m < v) if sgn < 0 else (m > v))))
    c.schema(1, body, trig, 'argext')
    return w


def argmin(a, axis=None, **kw): return reduce_(a, axis, lambda x: argext(x, -1), lambda x: 0)
def argmax(a, axis=None, **kw):
    a = asarr(a)
    if a.kind() == 'b': a = convert(a, 'i')
    return reduce_(a, axis, lambda x: argext(x, 1), lambda x: 0)


# ---------------------------------------------------------------- structure
def concat(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    if not arrs: raise ValueError('need at least one array to concatenate')
    if any(a.ndim == 0 for a in arrs): raise ValueError('zero-dimensional arrays cannot be concatenated')
    nd = arrs[0].ndim
    axis = axis % nd
    for a in arrs:
        if a.ndim != nd: raise ValueError('all the input array dimensions must match')
    for a in arrs[1:]:
        for p in range(nd):
            if p != axis and not dim_eq(a._shape[p], arrs[0]._shape[p]): raise ValueError('all the input array dimensions except for the concatenation axis must match')
    starts, s = [], 0
    for a in arrs:
        starts.append(s); s = norm_dim(s + a._shape[axis])
    gets = [a.snap() for a in arrs]
    sh = arrs[0]._shape[:axis] + (s,) + arrs[0]._shape[axis + 1:]

    def g(ix):
        i = ix[axis]
        sub = lambda j: gets[j](ix[:axis] + (norm_idx(i - starts[j]),) + ix[axis + 1:])
        live = [j for j in range(len(arrs)) if not (dim_is_int(arrs[j]._shape[axis]) and arrs[j]._shape[axis] == 0)]
        if type(i) is int and all(dim_is_int(starts[j]) for j in live):
            for j in reversed(live):
                if i >= starts[j]: return sub(j)
        out = None
        for j in reversed(live):
            if type(i) is int and dim_is_int(starts[j]) and dim_is_int(arrs[j]._shape[axis]):
                if not starts[j] <= i < starts[j] + arrs[j]._shape[axis]: continue
                out = sub(j)
                continue
            if type(i) is int and dim_is_int(starts[j]) and i < starts[j]: continue
            if out is None:
                out = sub(j)
            else:
                nxt = norm_dim(starts[j] + arrs[j]._shape[axis])
                out = ite_bool(compare('<', i, nxt), sub(j), out)
        return out
    kinds = [a.kind() for a in arrs if not (a.concrete_shape() and a.size == 0)] 
    dt = None
    if kinds: dt = [k for k in 'Ofib' if k in kinds][0]
    if any(a.concrete_shape() and a.size == 0 and a._dt == 'f' for a in arrs) and dt in ('i', 'b'): dt = dt
    return Arr(sh, g, dt)


def symconcat(sl, axis=0):
    raise Unsupported('concatenation of a symbolic number of arrays')


def seq(x):
    x = plain(x)
    if isinstance(x, SymList):
        if dim_is_int(x.n): return [x[i] for i in range(x.n)]
        if isinstance(x, Chunks): return x
        return x
    if isinstance(x, Arr):
        if dim_is_int(x._shape[0]): return [x[i] for i in range(x._shape[0])]
        return SymList.of_arr(x)
    return list(x)


def atleast_1d(x):
    a = asarr(x)
    if a.ndim == 0:
        v = a.item_()
        return Arr((1,), lambda ix: v, a._dt)
    return a


def hstack(arrs, **kw):
    arrs = seq(arrs)
    if isinstance(arrs, SymList):
        return symflat(arrs)
    arrs = [atleast_1d(a) for a in arrs]
    return concat(arrs, 0 if arrs and arrs[0].ndim == 1 else 1)


def concatenate(arrs, axis=0, **kw):
    arrs = seq(arrs)
    if isinstance(arrs, SymList): return symflat(arrs)
    return concat(arrs, axis)


def symflat(sl):
    """Concatenate a symbolic number of vectors when every one has the same concrete length one."""
    if isinstance(sl, Chunks): return sl.flat()
    el = sl.elem(sl.K)
    if isinstance(el, Arr):
        if el.ndim == 1 and dim_is_int(el._shape[0]) and el._shape[0] == 1:
            return Arr((sl.n,), lambda ix: sl[ix[0]].get((0,)))
        raise Unsupported('concatenation of a symbolic number of arrays')
    if isinstance(el, (Sym,)) or is_num(el):
        return sl.to_arr()
    raise Unsupported('concatenation of a symbolic number of arrays')


def vstack(arrs, **kw):
    arrs = seq(arrs)
    if isinstance(arrs, SymList): return arrs.to_arr()
    out = []
    for a in arrs:
        a = atleast_1d(a)
        out.append(expand_dims(a, 0) if a.ndim == 1 else a)
    return concat(out, 0)


def column_stack(arrs):
    arrs = [asarr(a) for a in seq(arrs)]
    return concat([expand_dims(a, 1) if a.ndim == 1 else a for a in arrs], 1)


def stack(arrs, axis=0):
    arrs = seq(arrs)
    if isinstance(arrs, SymList):
        if axis == 0: return arrs.to_arr()
        raise Unsupported('stack')
    return concat([expand_dims(asarr(a), axis) for a in arrs], axis)


def expand_dims(a, axis):
    a = asarr(a)
    axis = axis % (a.ndim + 1)
    g = a.snap()
    return Arr(a._shape[:axis] + (1,) + a._shape[axis:], lambda ix: g(ix[:axis] + ix[axis + 1:]), a._dt)


def squeeze(a, axis=None):
    a = asarr(a)
    keep = [i for i, d in enumerate(a._shape) if not (dim_is_int(d) and d == 1)]
    if axis is not None: keep = [i for i in range(a.ndim) if i != axis % a.ndim]
    g = a.snap()
    def h(ix):
        full = [0] * a.ndim
        for p, i in enumerate(keep): full[i] = ix[p]
        return g(tuple(full))
    r = Arr(tuple(a._shape[i] for i in keep), h, a._dt)
    return r


def transpose(a, axes=None):
    a = asarr(a)
    if axes is None: return a.T
    if len(axes) == 1 and isinstance(axes[0], (tuple, list)): axes = axes[0]
    g = a.snap()
    inv = [list(axes).index(i) for i in range(a.ndim)]
    return Arr(tuple(a._shape[i] for i in axes), lambda ix: g(tuple(ix[inv[i]] for i in range(a.ndim))), a._dt)


def append(a, v, axis=None):
    if axis is None:
        a, v = asarr(a), asarr(v)
        return concat([atleast_1d(a) if a.ndim < 2 else a.reshape(-1), atleast_1d(v) if v.ndim < 2 else v.reshape(-1)], 0)
    return concat([a, v], axis)


def diff(a, n=1, axis=-1, **kw):
    a = asarr(a)
    if kw: raise Unsupported('diff options')
    axis = axis % a.ndim
    for _ in range(n):
        sl1 = (slice(None),) * axis + (slice(1, None),)
        sl0 = (slice(None),) * axis + (slice(None, -1),)
        a = a[sl1] - a[sl0]
    return a


def ediff1d(a, to_end=None, to_begin=None):
    a = asarr(a)
    if a.ndim != 1: a = a.reshape(-1)
    parts = []
    if to_begin is not None: parts.append(atleast_1d(to_begin))
    parts.append(diff(a))
    if to_end is not None: parts.append(atleast_1d(to_end))
    return concat(parts, 0)


def repeat(a, n, axis=None):
    a = asarr(a)
    if isinstance(n, (list, tuple, Arr)) and not (isinstance(n, Arr) and n.ndim == 0):
        cn = [as_index(x) for x in asarr(n).cells()]
        a1 = atleast_1d(a)
        return Arr.from_list([a1.get((i,)) for i, k in enumerate(cn) for _ in range(k)])
    n = norm_dim(n)
    if axis is None:
        a = atleast_1d(a) if a.ndim < 2 else a.reshape(-1)
        axis = 0
    g = a.snap()
    d = a._shape[axis]
    if dim_is_int(d) and d == 1:
        return Arr(a._shape[:axis] + (n,) + a._shape[axis + 1:], lambda ix: g(ix[:axis] + (0,) + ix[axis + 1:]), a._dt)
    if dim_is_int(n) and n == 1: return a.copy()
    return Arr(a._shape[:axis] + (norm_dim(d * n),) + a._shape[axis + 1:], lambda ix: g(ix[:axis] + (norm_idx(ix[axis] // n),) + ix[axis + 1:]), a._dt)


def tile(a, reps):
    a = asarr(a)
    if isinstance(reps, (tuple, list)):
        if len(reps) == 2 and a.ndim == 1 and as_index(reps[1]) == 1:
            g = a.snap()
            return Arr((reps[0], a._shape[0]), lambda ix: g((ix[1],)), a._dt)
        raise Unsupported('tile')
    a = atleast_1d(a)
    if dim_is_int(a._shape[0]) and a._shape[0] == 1: return repeat(a, reps)
    if isinstance(reps, int): return concat([a] * reps, 0)
    raise Unsupported('tile')


def linspace(a, b, num=50, endpoint=True, **kw):
    n = norm_dim(num)
    if kw.get('retstep') or kw.get('axis'): raise Unsupported('linspace options')
    if not endpoint: return Arr((n,), lambda ix: a + div(conv_scalar(ix[0], 'f'), n) * (b - a), 'f')
    if dim_is_int(n) and n == 1: return Arr((1,), lambda ix: a, 'f')
    return Arr((n,), lambda ix: a + div(conv_scalar(ix[0], 'f'), n - 1) * (b - a), 'f')


def arange(*args, **kw):
    if len(args) == 1: st, sp, step = 0, args[0], 1
    elif len(args) == 2: (st, sp), step = args, 1
    else: st, sp, step = args
    if not all(isinstance(x, int) or (isinstance(x, Sym) and x.is_int()) for x in (st, sp, step)):
        if all(is_num(x) for x in (st, sp, step)):
            n = max(0, math.ceil((sp - st) / step))
            return Arr((n,), lambda ix: st + ix[0] * step, 'f')
        raise Unsupported('arange with real arguments')
    if not (isinstance(step, int) and step == 1):
        if all(isinstance(x, int) for x in (st, sp, step)):
            vals = list(range(st, sp, step))
            return Arr.from_list(vals, 'i')
        raise Unsupported('arange with a step')
    n = norm_dim(sp - st)
    if not dim_is_int(n) and not known_ge(n, 0): n = norm_dim(smax2(n, 0))
    if dim_is_int(n) and n < 0: n = 0
    return Arr((n,), lambda ix: st + ix[0] if not (isinstance(st, int) and st == 0) else ix[0], 'i')


def shape_arg(s):
    if isinstance(s, (tuple, list)): return tuple(norm_dim(x) for x in s)
    if isinstance(s, Arr): return tuple(norm_dim(x) for x in s.cells())
    return (norm_dim(s),)


def full(s, v, dtype=None, **kw):
    v = numify(v)
    kd = dtype_of(dtype)
    if kd: v = conv_scalar(v, kd)
    return Arr(shape_arg(s), lambda ix: v, kd)


def zeros(s, dtype=None, **kw): return full(s, False if dtype_of(dtype) == 'b' else 0, dtype or 'f')
def ones(s, dtype=None, **kw): return full(s, True if dtype_of(dtype) == 'b' else 1, dtype or 'f')


def empty(s, dtype=None, **kw):
    sh = shape_arg(s)
    if any(dim_is_int(d) and d == 0 for d in sh): return full(s, 0, dtype or 'f')
    c = ctx()
    F, _ = c.fun('empty', len(sh))
    return Arr(sh, lambda ix: Sym(F(*[ie(i) for i in ix])), 'f')


def zeros_like(a, dtype=None, **k): a = asarr(a); return full(a._shape, 0, dtype or a.kind())
def ones_like(a, dtype=None, **k): a = asarr(a); return full(a._shape, 1, dtype or a.kind())
def full_like(a, v, dtype=None, **k): a = asarr(a); return full(a._shape, v, dtype)
def empty_like(a, dtype=None, **k): a = asarr(a); return empty(a._shape, dtype)


def identity(n, dtype=None):
    n = norm_dim(n)
    return Arr((n, n), lambda ix: ite_bool(compare('==', ix[0], ix[1]), 1, 0), 'f')


def eye(n, m=None, **k):
    if m is not None: raise Unsupported('eye')
    return identity(n)


def diag(a, k=0):
    a = asarr(a)
    if k: raise Unsupported('off-diagonal')
    g = a.snap()
    if a.ndim == 2:
        n = a._shape[0] if dim_eq(a._shape[0], a._shape[1]) else norm_dim(smin2(a._shape[0], a._shape[1]))
        return Arr((n,), lambda ix: g((ix[0], ix[0])), a._dt)
    n = a._shape[0]
    def h(ix):
        c = compare('==', ix[0], ix[1])
        return ite_bool(c, g((ix[0],)), 0)
    return Arr((n, n), h)


diagonal = diag


def fill_diagonal(a, v, **kw):
    if a.ndim != 2: raise ValueError('array must be at least 2-d')
    old = a.snap()
    v = plain(v)
    va = asarr(v)
    vg = va.snap()
    if va.ndim == 0:
        h = lambda i: va.item_()
    else:
        m = va._shape[0]
        if va.ndim != 1: raise Unsupported('fill_diagonal values')
        h = (lambda i: vg((0,))) if (dim_is_int(m) and m == 1) else (lambda i: vg((i,)))
        if not (dim_is_int(m) and m == 1) and not dim_eq(m, a._shape[0]): raise Unsupported('fill_diagonal repeats values')

    def g(ix):
        c = compare('==', ix[0], ix[1])
        if isinstance(c, bool): return h(ix[0]) if c else old(ix)
        return ite(c, h(ix[0]), old(ix))
    a.mutate(g)


def meshgrid(*xs, indexing='xy', **kw):
    if len(xs) != 2: raise Unsupported('meshgrid')
    x, y = [asarr(v) for v in xs]
    gx, gy = x.snap(), y.snap()
    nx, ny = x._shape[0], y._shape[0]
    if indexing == 'ij':
        return [Arr((nx, ny), lambda ix: gx((ix[0],))), Arr((nx, ny), lambda ix: gy((ix[1],)))]
    return [Arr((ny, nx), lambda ix: gx((ix[1],))), Arr((ny, nx), lambda ix: gy((ix[0],)))]


class Outer:
    def __init__(self, f): self.f = f
    def __call__(self, a, b): return ewn(self.f, (a, b))
    def outer(self, a, b):
        a, b = asarr(a), asarr(b)
        return ewn(self.f, (expand_dims(a, 1), expand_dims(b, 0)))
    def reduce(self, a, axis=0, **k):
        a = asarr(a)
        if self is minimum: return amin(a, axis)
        if self is maximum: return amax(a, axis)
        if self is add: return np_sum(a, axis)
        raise Unsupported('ufunc.reduce')
    def accumulate(self, a, **k):
        if self is add: return cumsum(a)
        raise Unsupported('ufunc.accumulate')


minimum, maximum, add = Outer(smin2), Outer(smax2), Outer(lambda a, b: a + b)
subtract, multiply, divide = Outer(lambda a, b: a - b), Outer(mul), Outer(div)


def outer(a, b):
    a, b = asarr(a), asarr(b)
    a, b = [x.reshape(-1) if x.ndim != 1 else x for x in (a, b)]
    ga, gb = a.snap(), b.snap()
    return Arr((a._shape[0], b._shape[0]), lambda ix: mul(ga((ix[0],)), gb((ix[1],))))


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: raise ValueError('matmul: operand has no dimensions')
    ga, gb = a.snap(), b.snap()
    n, m = a._shape[-1], b._shape[0] if b.ndim == 1 else b._shape[-2]
    if not dim_eq(n, m): raise ValueError('matmul: mismatch in core dimension')
    nn = n if dim_is_int(n) else m
    if a.ndim == 1 and b.ndim == 1:
        return sum1(Arr((nn,), lambda k: mul(ga(k), gb(k))))
    if a.ndim == 2 and b.ndim == 1:
        return Arr((a._shape[0],), lambda ix: sum1(Arr((nn,), lambda k: mul(ga((ix[0], k[0])), gb(k)))))
    if a.ndim == 1 and b.ndim == 2:
        return Arr((b._shape[1],), lambda ix: sum1(Arr((nn,), lambda k: mul(ga(k), gb((k[0], ix[0]))))))
    if a.ndim == 2 and b.ndim == 2:
        return Arr((a._shape[0], b._shape[1]), lambda ix: sum1(Arr((nn,), lambda k: mul(ga((ix[0], k[0])), gb((k[0], ix[1]))))))
    raise Unsupported('matmul of higher rank')


def dot(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    return matmul(a, b)


# ---------------------------------------------------------------- order
def oblige_sorted(a, what):
    c = ctx()
    n = a._shape[0]
    if a.concrete_shape():
        cs = a.cells()
        for x, y in zip(cs, cs[1:]):
            r = compare('<=', x, y)
            if isinstance(r, bool):
                if not r: c.oblige(what, z3.BoolVal(False))
            elif not c.entails(r.e): c.oblige(what, r)
        return
    key = ('sorted', lift(a.get((Sym(z3.Int('so!K')),))).get_id(), ie(n).get_id())
    if key in c.memo: return
    k = c.int('so')
    c.oblige(what, z3.Implies(z3.And(k.e >= 0, k.e + 1 < ie(n)), lift(compare('<=', a.get((k,)), a.get((norm_idx(k + 1),))))))
    c.memo[key] = (True, a)
    # transitivity (by induction from neighbouring elements)
    g = a.snap()
    K = z3.Int('ax!K')
    trig = core.app_functions_with(lift(g((Sym(K),))), [K]) or None
    c.schema(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < ie(n)), lift(compare('<=', g((Sym(i),)), g((Sym(j),))))), trig, 'sorted-trans')


def searchsorted(a, v, side='left', sorter=None):
    a = asarr(a)
    if sorter is not None: raise Unsupported('searchsorted sorter')
    op = '<' if side == 'left' else '<='
    if isinstance(v, (list, tuple)) or isinstance(v, SymList): v = asarr(v)
    if isinstance(v, Arr) and v.ndim == 0: v = v.item_()
    if a.concrete_shape():
        oblige_sorted(a, 'searchsorted: array is sorted')
        cs = a.cells()

        def count(x):
            s = 0
            for y in cs:
                r = compare(op, y, x)
                s = s + (int(r) if isinstance(r, bool) else Sym(core.to_int(r.e), r.bad))
            return s
        return ew1(count, v, 'i')
    oblige_sorted(a, 'searchsorted: array is sorted')
    c = ctx()
    g = a.snap()
    n = a._shape[0]
    K = z3.Int('ss!K')
    pr = lift(g((Sym(K),)))
    key = ('ss', op, pr.get_id(), ie(n).get_id())
    if key not in c.memo:
        phs = [p for p in c.placeholders() if contains(pr, p)]
        F = z3.Function(c.name('ss%s' % side), *([p.sort() for p in phs] + [R, I]))
        np_ = len(phs)

        def elem(ps, j):
            e = to_real(lift(g((Sym(j),))))
            return z3.substitute(e, *zip(phs, ps)) if np_ else e

        def rng(*idx):
            ps, x = idx[:-1], idx[-1]
            p = F(*ps, x)
            nn = z3.substitute(ie(n), *zip(phs, ps)) if np_ else ie(n)
            lt = (lambda u, w: u < w) if side == 'left' else (lambda u, w: u <= w)
            return z3.And(p >= 0, p <= nn, z3.Implies(p > 0, lt(elem(ps, p - 1), x)), z3.Implies(p < nn, z3.Not(lt(elem(ps, p), x))))
        s = core.Schema(1 + np_, rng, {F.name()}, 'Real', 'ss-range')
        s.whole = F
        c.schemas.append(s)
        c.memo[key] = (F, phs, pr)
    F, phs, _ = c.memo[key]

    def one(x):
        if is_num(x) and not is_finite_num(x):
            return 0 if x < 0 else n
        return Sym(F(*phs, to_real(lift(x))), bad_of(x))
    return ew1(one, v, 'i')


def sort(a, axis=-1, **kw):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported('sort of a matrix')
    if a.concrete_shape():
        cs = a.cells()
        out = []
        for x in cs:                     # insertion by compare-exchange, without forking
            for i in range(len(out)):
                lo, hi = smin2(out[i], x), smax2(out[i], x)
                out[i], x = lo, hi
            out.append(x)
        return Arr.from_list(out, a.kind() if cs else a._dt)
    p = argsort(a)
    return a[p]


def argsort(a, axis=-1, **kw):
    a = asarr(a)
    if a.ndim != 1: raise Unsupported('argsort of a matrix')
    n = a._shape[0]
    if a.concrete_shape():
        cs = a.cells()
        order = list(range(n))
        out = []
        for i in order:
            pos = len(out)
            while pos > 0 and bool(compare('<', cs[i], cs[out[pos - 1]])): pos -= 1
            out.insert(pos, i)
        return Arr.from_list(out, 'i') if out else Arr((0,), lambda ix: 0, 'i')
    c = ctx()
    g = a.snap()
    pr = lift(g((Sym(z3.Int('as!K')),)))
    key = ('argsort', pr.get_id(), ie(n).get_id(), tuple(p.get_id() for p in c.placeholders()))
    if key not in c.memo:
        F, f_ = c.fun('perm', 1, I)
        G, g_ = c.fun('permi', 1, I)
        ne = ie(n)
        c.schema(1, lambda j: z3.Implies(z3.And(j >= 0, j < ne), z3.And(F(j) >= 0, F(j) < ne, G(F(j)) == j)), {f_.name()}, 'perm/' + g_.name())
        c.schema(1, lambda j: z3.Implies(z3.And(j >= 0, j < ne), z3.And(G(j) >= 0, G(j) < ne, F(G(j)) == j)), {g_.name()} | core.app_functions_with(pr, [z3.Int('as!K')]), 'permi/' + f_.name())
        c.schema(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < ne), lift(compare('<=', g((Sym(F(i)),)), g((Sym(F(j)),))))), {f_.name()}, 'sorted')
        c.memo[key] = (F, pr)
    F = c.memo[key][0]
    return Arr((n,), lambda ix: Sym(F(ie(ix[0]))), 'i')


def where(cond, x=None, y=None):
    if x is None:
        m = asarr(cond)
        if m.kind() != 'b': m = m != 0
        if m.concrete_shape():
            pos = [ix for ix in itertools.product(*[range(d) for d in m._shape]) if truth(m.get(ix))]
            return tuple(Arr.from_list([p[k] for p in pos], 'i') if pos else Arr((0,), lambda ix: 0, 'i') for k in range(m.ndim))
        if m.ndim != 1: raise Unsupported('where of a symbolic matrix')
        o = compress_info(m)
        return (Arr((o.count,), lambda ix: o.sel(ix[0]), 'i'),)
    return ewn(lambda c, a, b: ite_bool(c, a, b), (cond, x, y))


def isin(a, b, **kw):
    b = asarr(b)
    inv = kw.get('invert', False)
    if b.concrete_shape():
        cs = b.cells()
        def one(x):
            r = False
            for y in cs: r = bor(r, compare('==', x, y))
            return bnot(r) if inv else r
        return ew1(one, a, 'b')
    c = ctx()
    g = b.snap()
    n = b._shape[0]
    pr = lift(g((Sym(z3.Int('in!K')),)))
    key = ('isin', pr.get_id(), ie(n).get_id())
    if key not in c.memo:
        P = z3.Function(c.name('isin'), R, B)
        W = z3.Function(c.name('isinw'), R, I)
        trig = core.app_functions_with(pr, [z3.Int('in!K')]) or None
        s = core.Schema(1, lambda x: z3.Implies(P(x), z3.And(W(x) >= 0, W(x) < ie(n), to_real(lift(g((Sym(W(x)),)))) == x)), {P.name()}, 'Real', 'isin-wit')
        c.schemas.append(s)
        c.schema(1, lambda k: z3.Implies(z3.And(k >= 0, k < ie(n)), P(to_real(lift(g((Sym(k),)))))), trig, 'isin-mem')
        c.memo[key] = (P, pr)
    P = c.memo[key][0]
    return ew1(lambda x: bnot(Sym(P(to_real(lift(x))))) if inv else Sym(P(to_real(lift(x)))), a, 'b')


in1d = isin


def unique(a, **kw):
    if any(kw.values()): raise Unsupported('unique options')
    a = asarr(a)
    if not a.concrete_shape(): raise Unsupported('unique of symbolic length')
    s = sort(a).cells() if a.ndim == 1 else sort(a.reshape(-1)).cells()
    out = []
    for x in s:
        if not out or not bool(compare('==', x, out[-1])): out.append(x)
    return Arr.from_list(out, a.kind()) if out else Arr((0,), lambda ix: 0, a._dt)


def delete(a, i, axis=None):
    a = asarr(a)
    i = plain(i)
    if axis is None:
        if a.ndim != 1: a = a.reshape(-1)
        axis = 0
    n = a._shape[axis]
    g = a.snap()
    if isinstance(i, (list, tuple, Arr)) and not (isinstance(i, Arr) and i.ndim == 0):
        ii = asarr(i)
        if ii.kind() == 'b': return mask_select(a, ~ii)
        if ii.concrete_shape() and dim_is_int(n):
            drop = [as_index(x) % n if type(as_index(x)) is int else as_index(x) for x in ii.cells()]
            if all(type(x) is int for x in drop) and a.ndim == 1:
                keep = [k for k in range(n) if k not in drop]
                return Arr.from_list([g((k,)) for k in keep], a._dt)
        raise Unsupported('delete of several symbolic positions')
    j = norm_scalar_index(as_index(i), n)
    return Arr(a._shape[:axis] + (norm_dim(n - 1),) + a._shape[axis + 1:],
               lambda ix: g(ix[:axis] + (idx_ite(compare('<', ix[axis], j), ix[axis], ix[axis] + 1),) + ix[axis + 1:]), a._dt)


def idx_ite(c, a, b):
    r = ite_bool(c, a, b)
    return norm_idx(r)


def insert(a, pos, vals, axis=None):
    a = asarr(a)
    if axis is not None and a.ndim > 1: raise Unsupported('insert along an axis of a matrix')
    pos, vals = plain(pos), plain(vals)
    if isinstance(pos, SymList): pos = pos.to_arr()
    va = asarr(vals)
    n = a._shape[0]
    if not isinstance(pos, (Arr, list, tuple)) or (isinstance(pos, Arr) and pos.ndim == 0):
        p = pos.item_() if isinstance(pos, Arr) else pos
        p = as_index(p)
        if type(p) is int and p < 0: p = norm_dim(n + p)
        va = atleast_1d(va)
        ok = compare('<=', p, n)
        if not bool(ok): raise IndexError('insert out of bounds')
        return concat([a[:p], va, a[p:]], 0)
    pa = asarr(pos)
    if pa.concrete_shape() and a.concrete_shape():
        m = pa._shape[0]
        va = atleast_1d(va)
        vc = [va.get((k if not (dim_is_int(va._shape[0]) and va._shape[0] == 1) else 0,)) for k in range(m)]
        ps = [as_index(x) for x in pa.cells()]
        for p in ps:
            ok = band(compare('<=', p, n), compare('>=', p, -n if dim_is_int(n) else 0))
            if not bool(ok): raise IndexError('index out of bounds')
        # stable order of positions
        order = []
        for k in range(m):
            q = len(order)
            while q > 0 and bool(compare('<', ps[k], ps[order[q - 1]])): q -= 1
            order.insert(q, k)
        cells = [a.get((i,)) for i in range(n)]
        out, src = [], 0
        oi = 0
        # interleave: position p inserts before original element p
        while src <= n:
            while oi < m and bool(compare('==', ps[order[oi]], src)):
                out.append(vc[order[oi]]); oi += 1
            if src < n: out.append(cells[src])
            src += 1
        if oi != m: raise Unsupported('negative insert positions')
        return Arr.from_list(out, a.kind())
    return sym_insert(a, pa, atleast_1d(va))


def sym_insert(a, pa, va):
    """insert of m values at nondecreasing positions into an array of symbolic length."""
    c = ctx()
    n, m = a._shape[0], pa._shape[0]
    oblige_sorted(pa, 'insert: positions are nondecreasing')
    if not dim_eq(va._shape[0], m): raise ValueError('shape mismatch')
    pg, ag, vg = pa.snap(), a.snap(), va.snap()
    N = norm_dim(n + m)
    j0 = c.int('ij')
    c.oblige('insert: positions within bounds', z3.Implies(z3.And(j0.e >= 0, j0.e < ie(m)), z3.And(ie(pg((j0,))) >= 0, ie(pg((j0,))) <= ie(n))))
    # cnt(p): number of inserted values before result position p
    key = ('insert', lift(pg((Sym(z3.Int('in!K')),))).get_id(), ie(n).get_id(), ie(m).get_id())
    if key not in c.memo:
        CN, cn_ = c.fun('inscnt', 1, I)
        c.schema(1, lambda p: z3.Implies(z3.And(p >= 0, p <= ie(N)), z3.And(
            CN(p) >= 0, CN(p) <= ie(m), CN(p) <= p, p - CN(p) <= ie(n),
            z3.Implies(CN(p) < ie(m), ie(pg((Sym(CN(p)),))) + CN(p) >= p),
            z3.Implies(CN(p) > 0, ie(pg((Sym(CN(p) - 1),))) + CN(p) - 1 < p))), {cn_.name()}, 'inscnt')
        c.memo[key] = (CN, pa)
    CN = c.memo[key][0]

    def g(ix):
        p = ie(ix[0])
        cn = CN(p)
        pos = ie(pg((Sym(cn),)))
        isnew = z3.And(cn < ie(m), pos + cn == p)
        return ite(Sym(isnew), vg((Sym(cn),)), ag((Sym(p - cn),)))
    r = Arr((N,), g, a._dt)
    return r


def split(a, idx, axis=0):
    a = asarr(a)
    if isinstance(idx, int): raise Unsupported('split into equal parts')
    cuts = [as_index(x) for x in asarr(idx).cells()] if asarr(idx).concrete_shape() else None
    if cuts is None: return SymSplit(a, asarr(idx))
    bounds = [None] + cuts + [None]
    return [a[slice(p, q)] for p, q in zip(bounds[:-1], bounds[1:])]


def bincount(x, weights=None, minlength=0):
    x = asarr(x)
    if not x.concrete_shape():
        if hasattr(x, 'compressed'):
            src, m, g = x.compressed
            mg = m.snap()
            n = norm_dim(minlength)
            wg = asarr(weights).snap() if weights is not None else None
            if wg is not None: raise Unsupported('bincount weights of a masked array')
            c = ctx()
            k = c.int('bk')
            c.oblige('bincount values within minlength', z3.Implies(z3.And(k.e >= 0, k.e < ie(m._shape[0]), lift(mg((k,)))), z3.And(ie(g((k,))) >= 0, ie(g((k,))) < ie(n))))
            return Arr((n,), lambda ix: sum1(Arr((m._shape[0],), lambda kk: ite(Sym(z3.And(lift(mg(kk)), ie(g(kk)) == ie(ix[0]))), 1, 0))), 'i')
        n = norm_dim(minlength)
        g = x.snap()
        c = ctx()
        k = c.int('bk')
        c.oblige('bincount values within minlength', z3.Implies(z3.And(k.e >= 0, k.e < ie(x._shape[0])), z3.And(ie(g((k,))) >= 0, ie(g((k,))) < ie(n))))
        wg = asarr(weights).snap() if weights is not None else (lambda kk: 1)
        return Arr((n,), lambda ix: sum1(Arr((x._shape[0],), lambda kk: ite(Sym(ie(g(kk)) == ie(ix[0])), wg(kk), 0))), 'i' if weights is None else 'f')
    cs = x.cells()
    w = asarr(weights).cells() if weights is not None else [1] * len(cs)
    n = norm_dim(minlength)
    for v in cs:
        if isinstance(v, (int,)):
            if not dim_is_int(n) or v >= n:
                n = max(n, v + 1) if dim_is_int(n) else n
        else:
            if not bool(compare('>=', v, 0)): raise ValueError('negative')
            if not bool(compare('<', v, n)): raise Unsupported('bincount beyond minlength')
    def g(ix):
        s = 0
        for v, ww in zip(cs, w): s = s + ite_bool(compare('==', v, ix[0]), ww, 0)
        return s
    return Arr((n,), g, 'i' if weights is None else 'f')


def clip(a, lo, hi): return minimum(maximum(a, lo), hi) if lo is not None and hi is not None else (minimum(a, hi) if lo is None else maximum(a, lo))


# ---------------------------------------------------------------- elementwise functions
def u1(f, dt=None): return lambda a, *r, **k: ew1(f, a, dt)


def isinf(a): return ew1(lambda x: (not isinstance(x, Sym)) and is_num(x) and not is_finite_num(x) and x == x, a, 'b')


def isnan_s(x):
    if isinstance(x, Sym):
        if x.bad is None: return False
        s = z3.simplify(x.bad)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        return Sym(s)
    return isinstance(x, float) and x != x


def isnan(a): return ew1(isnan_s, a, 'b')
def isfinite(a): return ew1(lambda x: bnot(isnan_s(x)) if isinstance(x, Sym) else is_finite_num(x), a, 'b')


def sign_s(x):
    if isinstance(x, Sym): return ite(x > 0, 1, ite(x == 0, 0, -1))
    return (x > 0) - (x < 0)


def logaddexp_s(a, b):
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sym) and x == -INF: return y
        if not isinstance(x, Sym) and x == INF: return INF
    return slog(sexp(a) + sexp(b))


def nan_to_num_s(x):
    if isinstance(x, Sym): return nan_to(x, 0)
    if x != x: return 0.0
    if x == INF: return 1.7976931348623157e308
    if x == -INF: return -1.7976931348623157e308
    return x


def floor_s(x):
    if isinstance(x, Sym): return Sym(z3.ToReal(z3.ToInt(to_real(x.e))), x.bad)
    return math.floor(x)


def ceil_s(x):
    if isinstance(x, Sym): return Sym(-z3.ToReal(z3.ToInt(-to_real(x.e))), x.bad)
    return math.ceil(x)


def square_s(x): return x * x if not isinstance(x, bool) else int(x)


def norm(x, ord=None, axis=None, **k):
    if ord not in (None, 2): raise Unsupported('norm order')
    a = asarr(x)
    s = np_sum(ew1(square_s, a), axis)
    return ew1(ssqrt, s)


def allclose(a, b, **k): raise Unsupported('allclose')


def float64(x=0):
    if isinstance(x, (list, tuple, Arr, SymList)): return convert(asarr(x), 'f')
    return conv_scalar(numify(x), 'f')


def int64(x=0):
    if isinstance(x, (list, tuple, Arr, SymList)):
        a = asarr(x)
        return convert(a, 'i') if not (a.concrete_shape() and a.size == 0) else Arr((0,), lambda ix: 0, 'i')
    return conv_scalar(numify(x), 'i')


def bool_(x=False):
    if isinstance(x, (list, tuple, Arr, SymList)): return convert(asarr(x), 'b')
    return conv_scalar(numify(x), 'b')


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, Arr): r = x.copy()
    else:
        r = asarr(x)
        if isinstance(plain(x), (list, tuple)) and len(plain(x)) == 0: r = Arr((0,), lambda ix: 0, 'f')
        if r is x: r = r.copy()
    if dtype is not None: r = convert(r, dtype_of(dtype))
    return r


def asarray(x, dtype=None, **k):
    r = asarr(x)
    if isinstance(plain(x), (list, tuple)) and len(plain(x)) == 0: r = Arr((0,), lambda ix: 0, 'f')
    return r if dtype is None else convert(r, dtype_of(dtype))


def solve(A, b):
    """Contract of numpy.linalg.solve: the returned x satisfies A x = b (A regular)."""
    A, b = asarr(A), asarr(b)
    c = ctx()
    c.run.assumed.add('numpy.linalg.solve returns the solution of the linear system (regular matrix)')
    n = A._shape[1]
    F, f_ = c.fun('solve', 1)
    x = Arr((n,), lambda ix: Sym(F(ie(ix[0]))), 'f')
    Ag, bg = A.snap(), b.snap()
    if b.ndim != 1: raise Unsupported('solve with several right-hand sides')
    if dim_is_int(n):
        for i in range(n):
            c.assume(compare('==', sum1(Arr((n,), lambda k: Ag((i, k[0])) * x.get(k))), bg((i,))))
    else:
        i = z3.Int('slv!i')
        row = sum1(Arr((n,), lambda k: Ag((Sym(i), k[0])) * x.get(k)))
        c.linear = getattr(c, 'linear', [])
        # schema over rows is registered through the generic stack
        c.generic_stack.append((i, [i >= 0, i < ie(n)]))
        try:
            row = sum1(Arr((n,), lambda k: Ag((Sym(i), k[0])) * x.get(k)))
            c.assume(compare('==', row, bg((Sym(i),))))
        finally:
            c.generic_stack.pop()
    c.events.append(('solve', A, b, x))
    return x


def unsup(name):
    def f(*a, **k): raise Unsupported('numpy.%s is outside the modelled subset' % name)
    return f


# ---------------------------------------------------------------- symbolic lists
class SymList:
    """A Python list of symbolic length: elem(k) gives the element at index k (z3 int or int)."""
    _is_symlist = True

    def __init__(self, n, elem):
        self.n = norm_dim(n)
        self.elem_ = elem
        self.K = z3.Int('sl!K')
        self.cache = {}

    def elem(self, k):
        k = as_index(k) if not isinstance(k, z3.ExprRef) else Sym(k)
        key = k if type(k) is int else k.e.get_id()
        if key not in self.cache:
            self.cache[key] = (self.elem_(k), k)
        return self.cache[key][0]

    @staticmethod
    def of_arr(a):
        g = a.copy()
        return SymList(a._shape[0], lambda k: g[k] if g.ndim > 1 else g.get((k,)))

    def to_arr(self):
        if dim_is_int(self.n): return Arr.from_list([self.elem(i) for i in range(self.n)])
        if getattr(self, 'anew', False) and not ctx().generic_stack:
            k = ctx().int('elem')
            ctx().assume(compare('>=', k, 0)); ctx().assume(compare('<', k, self.n))
            p = self.elem(k)
        else: p = self.elem(self.K)
        if isinstance(p, Arr):
            return Arr((self.n,) + p._shape, lambda ix: asarr(self.elem(ix[0])).get(ix[1:]))
        if isinstance(p, (tuple, list)):
            return Arr((self.n, len(p)), lambda ix: pick(list(self.elem(ix[0])), ix[1], lambda v: v))
        return Arr((self.n,), lambda ix: numify(self.elem(ix[0])))

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, ln, step = slice_bounds(k, self.n)
            return SymList(ln, lambda j: self.elem(norm_idx(st + j * step)))
        return self.elem(norm_scalar_index(as_index(k), self.n))

    def __len__(self):
        if dim_is_int(self.n): return self.n
        raise Unsupported('len of a symbolic list through the C protocol')

    def __iter__(self):
        if dim_is_int(self.n): return iter([self.elem(i) for i in range(self.n)])
        raise Unsupported('iteration over a list of symbolic length')

    def __add__(self, o):
        if isinstance(o, (list, SymList)): return symlist_cat(self, o)
        if isinstance(o, Arr): return asarr(self) + o
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, SymList)): return symlist_cat(o, self)
        if isinstance(o, Arr): return o + asarr(self)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, Arr): return asarr(self) * o
        raise Unsupported('repetition of a symbolic list')

    def append(self, v):
        old, n = self.elem_, self.n
        self.elem_ = lambda k: merge_pick(compare('<', k, n), lambda: old(k), lambda: v)
        self.n = norm_dim(n + 1)
        self.cache = {}

    def __bool__(self):
        return bool(compare('>', self.n, 0))


class Chunks(SymList):
    pass


class SymSplit(SymList):
    """np.split(a, cuts) with a symbolic number of cuts."""
    def __init__(self, a, cuts):
        self.a, self.cuts = a, cuts
        m = cuts._shape[0]
        ag, cg = a.copy(), cuts.copy()

        def el(k):
            pick_ = lambda cond, x, y: y() if ctx().proves(bnot(cond)) else ite_bool(cond, x, y())
            lo = pick_(compare('==', k, 0), 0, lambda: cg.get((norm_idx(k - 1),)))
            hi = pick_(compare('==', k, m), a._shape[0], lambda: cg.get((k,)))
            return ag[slice(norm_dim(lo), norm_dim(hi))]
        super().__init__(norm_dim(m + 1), el)


def symlist_cat(a, b):
    n1 = a.n if isinstance(a, SymList) else len(a)
    n2 = b.n if isinstance(b, SymList) else len(b)
    fa = a.elem if isinstance(a, SymList) else (lambda k: pick_any(a, k))
    fb = b.elem if isinstance(b, SymList) else (lambda k: pick_any(b, k))
    def el(k):
        c = compare('<', k, n1)
        if isinstance(c, bool): return fa(k) if c else fb(norm_idx(k - n1))
        if isinstance(n1, int) and n1 == 0: return fb(k)
        if isinstance(n2, int) and n2 == 0: return fa(k)
        return merge_pick(c, lambda: fa(k), lambda: fb(norm_idx(k - n1)))
    return SymList(norm_dim(n1 + n2), el)


def pick_any(lst, k):
    if type(k) is int: return lst[k]
    out = None
    for j in reversed(range(len(lst))):
        out = lst[j] if out is None else merge(compare('==', k, j), lst[j], out)
    return out


def merge_pick(c, fa, fb):
    if isinstance(c, bool): return fa() if c else fb()
    if ctx().entails(c.e): return fa()
    if ctx().entails(z3.Not(c.e)): return fb()
    return merge(c, fa(), fb())


def merge(c, a, b):
    """If-then-else on structured values."""
    if a is b: return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        vals = [merge(c, x, y) for x, y in zip(a, b)]
        return type(a)(*vals) if hasattr(a, '_fields') else tuple(vals)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        ga, gb = a.snap(), b.snap()
        sh = tuple(p if (dim_is_int(p) and dim_is_int(q) and p == q) else norm_dim(ite(c, p, q)) for p, q in zip(a._shape, b._shape))
        return Arr(sh, lambda ix: ite(c, ga(ix), gb(ix)))
    if (isinstance(a, Sym) or is_num(a)) and (isinstance(b, Sym) or is_num(b)):
        for x in (a, b):
            if is_num(x) and not is_finite_num(x) and x == x:
                if ctx().generic_stack: raise GenericFork(c.e)
                return a if bool(c) else b
        return ite(c, a, b)
    if isinstance(a, (list, SymList)) and isinstance(b, (list, SymList)):
        n1 = a.n if isinstance(a, SymList) else len(a)
        n2 = b.n if isinstance(b, SymList) else len(b)
        if isinstance(n1, int) and isinstance(n2, int) and n1 == n2:
            return [merge(c, x, y) for x, y in zip(a, b)]
    if ctx().generic_stack:
        raise GenericFork(c.e)
    return a if bool(c) else b


def subst(v, pairs):
    """Substitute z3 constants in a structured value."""
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.e, *pairs), None if v.bad is None else z3.substitute(v.bad, *pairs))
    if isinstance(v, Arr):
        g = v.snap()
        return Arr(tuple(d if dim_is_int(d) else norm_dim(subst(d, pairs)) for d in v._shape), lambda ix: subst_at(g, ix, pairs), v._dt)
    if isinstance(v, tuple):
        vals = [subst(x, pairs) for x in v]
        return type(v)(*vals) if hasattr(v, '_fields') else tuple(vals)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, SymList):
        return SymList(v.n if dim_is_int(v.n) else norm_dim(subst(v.n, pairs)), lambda k: subst_at1(v, k, pairs))
    if hasattr(v, '_subst'):
        return v._subst(pairs)
    return v


def subst_at(g, ix, pairs):
    """Evaluate the element function under the placeholders, then substitute (index terms are protected)."""
    tmp, back = [], []
    for i in ix:
        if type(i) is int: tmp.append(i)
        else:
            t = z3.Int('prot!%d' % len(back))
            tmp.append(Sym(t)); back.append((t, i.e))
    v = g(tuple(tmp))
    v = subst(v, pairs) if isinstance(v, (Sym, tuple, list, Arr)) else v
    return subst(v, back) if back and isinstance(v, (Sym, tuple, list, Arr)) else v


def subst_at1(sl, k, pairs):
    if type(k) is int:
        return subst(sl.elem(k), pairs)
    t = z3.Int('protl!0')
    return subst(subst(sl.elem(t), pairs), [(t, k.e)])
