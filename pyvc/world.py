"""The modelled world the code runs in: numpy namespace, random generators, scipy/joblib/numdifftools
stand-ins (each a contract, listed as assumed), itertools on symbolic lengths."""
import itertools as _it
import math
import types
import z3
from fractions import Fraction
from . import core, npmodel as M
from .core import Sym, Unsupported, ctx, is_num, is_finite_num, lift, compare, INF, R, I, B, PI, LGAMMA
from .npmodel import Arr, SymList, asarr, ie, dim_is_int, norm_dim


# ---------------------------------------------------------------- random generators
class Draw:
    def __init__(self, gen, kind, params, value, size):
        self.gen, self.kind, self.params, self.value, self.size = gen, kind, params, value, size
        self.claimed = False

    def __repr__(self): return 'Draw(%s,%s)' % (self.kind, self.params)


class SeedSeq:
    def __init__(self, gen): self.gen = gen

    def spawn(self, n):
        n = norm_dim(n)
        ctx().events.append(('spawn', self.gen, n))
        self.gen.n_spawned += 1
        base = self.gen.n_spawned
        if dim_is_int(n): return [Seed(self.gen, (base, i)) for i in range(n)]
        return SymList(n, lambda k: Seed(self.gen, (base, k)))


class Seed:
    def __init__(self, gen, key): self.gen, self.key = gen, key
    def _subst(self, pairs):
        return Seed(self.gen, tuple(M.subst(k, pairs) if isinstance(k, Sym) else k for k in self.key))


class BitGen:
    def __init__(self, gen):
        self._seed_seq = SeedSeq(gen)
        self.seed_seq = self._seed_seq


class Gen:
    """numpy.random.Generator: draws are fresh values in the (open) support of the distribution."""
    def __init__(self, label, owned=True):
        self.label, self.owned, self.n_spawned = label, owned, 0
        self.bit_generator = BitGen(self)

    def _subst(self, pairs):
        # a child generator is recognised by its place among the children of its parent
        key = getattr(self, 'key', None)
        if key is None: return self
        new = M.subst(key[1], pairs)
        if new is key[1] or (isinstance(new, Sym) and new.e.eq(key[1].e)): return self
        g = Gen(self.label, self.owned)
        g.parent, g.key = self.parent, (key[0], new)
        return g

    def spawn(self, n):
        n = norm_dim(n)
        self.n_spawned += 1
        base = self.n_spawned

        def child(k):
            g = Gen('%s/child' % self.label, owned=self.owned)
            g.parent, g.key = self, (base, k)
            return g
        return [child(i) for i in range(n)] if dim_is_int(n) else SymList(n, child)

    def _use(self):
        if not self.owned and not ctx().__dict__.get('allow_global'):
            ctx().oblige('frame: randomness only from the generator that was passed (here: %s)' % self.label, z3.BoolVal(False))

    def _draw(self, kind, params, size, sort=R, facts=None, finish=None, pshape=()):
        """fresh standardised value(s); finish maps (index, standard value) to the returned value."""
        self._use()
        c = ctx()
        if size is None and pshape == ():
            z = Sym(c.fresh(kind, sort))
            for f in (facts((), z) if facts else []): c.assume(f)
            v = finish((), z) if finish else z
            d = Draw(self, kind, params, z, None)
            c.draws.append(d)
            return v
        sh = M.shape_arg(size) if size is not None else tuple(pshape)
        if sh == ():
            z = Sym(c.fresh(kind, sort))
            for f in (facts((), z) if facts else []): c.assume(f)
            c.draws.append(Draw(self, kind, params, z, None))
            return finish((), z) if finish else z
        for d in sh:
            if not dim_is_int(d):
                ok = compare('>=', d, 0)
                if not isinstance(ok, bool) and not c.entails(ok.e): c.oblige('sample size is nonnegative', ok)
        F, f_ = c.fun(kind, len(sh), sort)
        if all(dim_is_int(d) for d in sh):
            arr = Arr(sh, lambda ix: Sym(F(*[z3.IntVal(i) for i in ix])), 'i' if sort == I else 'f')
            if facts:
                for ix in _it.product(*[range(d) for d in sh]):
                    for f in facts(ix, arr.get(ix)): c.assume(f)
        else:
            arr = Arr(sh, lambda ix: Sym(F(*[ie(i) for i in ix])), 'i' if sort == I else 'f')
            if facts:
                def body(*idx):
                    fs = facts(tuple(Sym(i) for i in idx), Sym(F(*idx)))
                    hyp = [z3.And(i >= 0, i < ie(d)) for i, d in zip(idx, sh)]
                    return z3.Implies(z3.And(*hyp), z3.And(*[lift(f) for f in fs]))
                c.schema(len(sh), body, {f_.name()}, 'support of ' + kind)
        c.draws.append(Draw(self, kind, params, arr, sh))
        if finish is None: return arr
        g = arr.snap()
        return Arr(sh, lambda ix: finish(ix, g(ix)), 'i' if sort == I else 'f')

    @staticmethod
    def _params(ps, size):
        """broadcast parameters -> (shape or (), accessor list)."""
        arrs = [asarr(p) if isinstance(p, (Arr, list, tuple, SymList)) else p for p in ps]
        shapes = [a._shape for a in arrs if isinstance(a, Arr)]
        psh = M.bcast_shape(*shapes) if shapes else ()
        def acc(a):
            if isinstance(a, Arr):
                g = a.snap()
                return lambda ix: g(M.bidx(a._shape, ix))
            return lambda ix: a
        return psh, [acc(a) for a in arrs]

    def uniform(self, low=0.0, high=1.0, size=None):
        if not isinstance(low, (Arr, Sym)) and not isinstance(high, (Arr, Sym)) and is_num(low) and is_num(high) and low == 0 and high == 1:
            return self._draw('U', {}, size, facts=lambda ix, z: [z > 0, z < 1])
        psh, (lo, hi) = self._params((low, high), size)
        return self._draw('U', {'low': low, 'high': high}, size, facts=lambda ix, z: [z > 0, z < 1],
                          finish=lambda ix, z: lo(ix) + (hi(ix) - lo(ix)) * z, pshape=psh)

    def random(self, size=None, **k): return self.uniform(size=size)
    def standard_normal(self, size=None, **k): return self._draw('Z', {}, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        psh, (lo, sc) = self._params((loc, scale), size)
        return self._draw('Z', {'loc': loc, 'scale': scale}, size, finish=lambda ix, z: lo(ix) + sc(ix) * z, pshape=psh)

    def standard_exponential(self, size=None, **k): return self._draw('E', {}, size, facts=lambda ix, z: [z > 0])

    def exponential(self, scale=1.0, size=None):
        psh, (sc,) = self._params((scale,), size)
        return self._draw('E', {'scale': scale}, size, facts=lambda ix, z: [z > 0], finish=lambda ix, z: M.mul(sc(ix), z), pshape=psh)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        psh, (m, s) = self._params((mean, sigma), size)
        return self._draw('Z', {'mean': mean, 'sigma': sigma}, size, finish=lambda ix, z: core.sexp(m(ix) + s(ix) * z), pshape=psh)

    def gamma(self, shape, scale=1.0, size=None):
        psh, (sh, sc) = self._params((shape, scale), size)

        def fin(ix, z):
            b = core.bad_of(sh(ix))
            return M.mul(sc(ix), Sym(z.e, core.or_bad(z.bad, b)))
        return self._draw('G', {'shape': shape, 'scale': scale}, size, facts=lambda ix, z: [z > 0], finish=fin, pshape=psh)

    def standard_gamma(self, shape, size=None): return self.gamma(shape, 1.0, size)

    def chisquare(self, df, size=None):
        psh, _ = self._params((df,), size)
        return self._draw('chi2', {'df': df}, size, facts=lambda ix, z: [z > 0], pshape=psh)

    def beta(self, a, b, size=None):
        psh, _ = self._params((a, b), size)
        for p in (a, b):
            if isinstance(p, (Sym, int, float)): 
                ok = compare('>', p, 0)
                if not (ok is True): 
                    if not bool(ok): raise ValueError('beta parameter <= 0')
        return self._draw('beta', {'a': a, 'b': b}, size, facts=lambda ix, z: [z > 0, z < 1], pshape=psh)

    def wald(self, mean, scale, size=None):
        psh, _ = self._params((mean, scale), size)
        for p in (mean, scale):
            if isinstance(p, (Sym, int, float, Fraction)):
                ok = compare('>', p, 0)
                if not (ok is True):
                    if not bool(ok): raise ValueError('wald parameter <= 0')
        return self._draw('wald', {'mean': mean, 'scale': scale}, size, facts=lambda ix, z: [z > 0], pshape=psh)

    def poisson(self, lam=1.0, size=None):
        psh, _ = self._params((lam,), size)
        return self._draw('poisson', {'lam': lam}, size, I, facts=lambda ix, z: [z >= 0], pshape=psh)

    def binomial(self, n, p, size=None):
        return self._draw('binomial', {'n': n, 'p': p}, size, I, facts=lambda ix, z: [z >= 0, z <= n])

    def integers(self, low, high=None, size=None, endpoint=False, **k):
        if high is None: low, high = 0, low
        if endpoint: high = high + 1
        return self._draw('integers', {'low': low, 'high': high}, size, I, facts=lambda ix, z: [compare('>=', z, low), compare('<', z, high)])

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = M.plain(a)
        if isinstance(a, (int, Sym)): n, pick = norm_dim(a), (lambda j: j)
        else:
            arr = asarr(a)
            n, g = arr._shape[0], arr.snap()
            pick = lambda j: g((j,))
        pa = asarr(p) if p is not None else None
        if pa is not None and not M.dim_eq(pa._shape[0], n): raise ValueError("'a' and 'p' must have same size")

        def facts(ix, z):
            fs = [compare('>=', z, 0), compare('<', z, n)]
            if pa is not None:
                if ctx().generic_stack or not dim_is_int(pa._shape[0]):
                    fs.append(Sym(z3.Implies(z3.And(z.e >= 0, z.e < ie(n)), lift(compare('>', pa.get((z,)), 0)))))
                else:
                    fs.append(compare('>', pa.get((z,)), 0))
            return fs
        if size is not None and not isinstance(size, (tuple, list)) and dim_is_int(norm_dim(size)) and norm_dim(size) > 1 and not replace:
            raise Unsupported('choice without replacement')
        return self._draw('choice', {'n': n, 'p': p}, size, I, facts=facts, finish=lambda ix, z: pick(z))

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean, cov = asarr(mean), asarr(cov)
        if size is not None: raise Unsupported('multivariate_normal with size')
        g = mean.snap()
        return self._draw('MVN', {'mean': mean, 'cov': cov}, mean._shape, finish=lambda ix, z: g(ix) + z)

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        raise Unsupported('Generator.%s' % name)


class GlobalRandom(types.ModuleType):
    Generator = Gen
    SeedSequence = SeedSeq

    def default_rng(self, seed=None):
        if core.CTX is None:
            return Gen('the default generator created at import', owned=False)
        if isinstance(seed, Seed):
            g = Gen('%s/child' % seed.gen.label, owned=seed.gen.owned)
            g.parent, g.key = seed.gen, seed.key
            return g
        if isinstance(seed, Gen): return seed
        if seed is None:
            return Gen('numpy.random.default_rng()', owned=False)
        raise Unsupported('default_rng with an explicit seed')

    def __getattr__(self, name):
        if name.startswith('__'): raise AttributeError(name)
        if core.CTX is None: raise AttributeError(name)
        g = Gen('numpy.random.%s' % name, owned=False)
        return getattr(g, name)


# ---------------------------------------------------------------- numpy namespace
def make_numpy():
    np = types.ModuleType('numpy')
    u = M.u1
    d = dict(
        ndarray=Arr, nan=float('nan'), NaN=float('nan'), inf=INF, Inf=INF, PINF=INF, NINF=-INF, newaxis=None, pi=Sym(PI), e=Sym(core.EXP(z3.RealVal(1))),
        float64=M.float64, float32=M.float64, float_=M.float64, int64=M.int64, int32=M.int64, int_=M.int64, intp=M.int64, bool_=M.bool_, object_='object',
        array=M.array, asarray=M.asarray, atleast_1d=M.atleast_1d, zeros=M.zeros, ones=M.ones, full=M.full, empty=M.empty,
        zeros_like=M.zeros_like, ones_like=M.ones_like, full_like=M.full_like, empty_like=M.empty_like, identity=M.identity, eye=M.eye,
        diag=M.diag, diagonal=M.diagonal, fill_diagonal=M.fill_diagonal, arange=M.arange, linspace=M.linspace, meshgrid=M.meshgrid,
        sum=M.np_sum, nansum=M.nansum, prod=M.prod, product=M.prod, mean=M.mean, min=M.amin, amin=M.amin, max=M.amax, amax=M.amax,
        any=M.np_any, all=M.np_all, cumsum=M.cumsum, cumprod=M.cumprod, argmin=M.argmin, argmax=M.argmax,
        minimum=M.minimum, maximum=M.maximum, add=M.add, subtract=M.subtract, multiply=M.multiply, divide=M.divide, true_divide=M.divide,
        fmin=M.minimum, fmax=M.maximum,
        hstack=M.hstack, vstack=M.vstack, concatenate=M.concatenate, stack=M.stack, column_stack=M.column_stack, append=M.append, insert=M.insert, delete=M.delete,
        diff=M.diff, ediff1d=M.ediff1d, repeat=M.repeat, tile=M.tile, split=M.split, array_split=M.split, outer=M.outer, dot=M.dot, matmul=M.matmul, inner=M.dot, vdot=M.dot,
        searchsorted=M.searchsorted, digitize=lambda x, bins, right=False: M.searchsorted(bins, x, 'left' if right else 'right'),
        sort=M.sort, argsort=M.argsort, where=M.where, nonzero=lambda a: M.where(a), flatnonzero=lambda a: M.where(a)[0], isin=M.isin, in1d=M.isin, unique=M.unique, bincount=M.bincount, clip=M.clip,
        exp=u(core.sexp), log=u(core.slog), sqrt=u(core.ssqrt), square=u(M.square_s), abs=u(core.sabs), absolute=u(core.sabs), fabs=u(core.sabs), sign=u(M.sign_s), negative=u(lambda x: -x),
        reciprocal=u(lambda x: M.div(1, x)), log1p=u(lambda x: core.slog(1 + x)), expm1=u(lambda x: core.sexp(x) - 1),
        power=lambda a, b: M.ewn(core.spow, (a, b)), logaddexp=lambda a, b: M.ewn(M.logaddexp_s, (a, b)), floor=u(M.floor_s), ceil=u(M.ceil_s),
        isinf=M.isinf, isnan=M.isnan, isfinite=M.isfinite, nan_to_num=u(M.nan_to_num_s),
        logical_and=lambda a, b: M.ewn(lambda x, y: M.band(tob(x), tob(y)), (a, b), 'b'), logical_or=lambda a, b: M.ewn(lambda x, y: M.bor(tob(x), tob(y)), (a, b), 'b'),
        logical_not=lambda a: M.ew1(lambda x: M.bnot(tob(x)), a, 'b'), logical_xor=lambda a, b: M.ewn(lambda x, y: M.bxor(tob(x), tob(y)), (a, b), 'b'),
        equal=lambda a, b: M.cmp2('==', asarr(a), b), not_equal=lambda a, b: M.cmp2('!=', asarr(a), b), less=lambda a, b: M.cmp2('<', asarr(a), b), less_equal=lambda a, b: M.cmp2('<=', asarr(a), b),
        greater=lambda a, b: M.cmp2('>', asarr(a), b), greater_equal=lambda a, b: M.cmp2('>=', asarr(a), b),
        expand_dims=M.expand_dims, squeeze=M.squeeze, transpose=M.transpose, ravel=lambda a: asarr(a).flatten(), reshape=lambda a, s: asarr(a).reshape(s), copy=lambda a: asarr(a).copy(),
        flip=lambda a, axis=None: asarr(a)[::-1] if (axis in (None, 0) and asarr(a).ndim == 1) or axis == 0 else M.unsup('flip')(), flipud=lambda a: asarr(a)[::-1],
        size=lambda a, axis=None: asarr(a).size if axis is None else asarr(a)._shape[axis], shape=lambda a: asarr(a)._shape, ndim=lambda a: asarr(a).ndim,
        count_nonzero=lambda a, axis=None: M.np_sum(M.ew1(lambda x: x if isinstance(x, bool) or (isinstance(x, Sym) and x.is_bool()) else x != 0, asarr(a), 'b'), axis),
        array_equal=array_equal, newaxis_=None, errstate=ErrState, seterr=lambda **k: None, isscalar=lambda x: isinstance(x, Sym) or is_num(x), take=lambda a, i, axis=None: asarr(a)[i],
        compress=lambda m, a: asarr(a)[asarr(m)], extract=lambda m, a: asarr(a)[asarr(m)], nanmin=M.unsup('nanmin'), average=average, cov=np_cov, trace=lambda a: M.np_sum(M.diag(a)), interp=M.unsup('interp'),
        broadcast_to=broadcast_to, nanmax=M.unsup('nanmax'), nanmean=M.unsup('nanmean'), ndenumerate=M.unsup('ndenumerate'),
        triu_indices=M.unsup('triu_indices'), triu=M.unsup('triu'), einsum=einsum, union1d=lambda a, b: M.unique(M.hstack([a, b])), setdiff1d=M.unsup('setdiff1d'),
    )
    for k, v in d.items(): setattr(np, k, v)
    np.random = GlobalRandom('numpy.random')
    la = types.ModuleType('numpy.linalg')
    la.norm, la.solve, la.inv, la.cholesky, la.det = M.norm, M.solve, inv, M.unsup('linalg.cholesky'), M.unsup('linalg.det')
    la.lstsq = M.unsup('linalg.lstsq')
    np.linalg = la

    def miss(name):
        if name.startswith('__'): raise AttributeError(name)
        raise Unsupported('numpy.%s is outside the modelled subset' % name)
    np.__getattr__ = miss
    return np


class ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def tob(x):
    if isinstance(x, bool) or (isinstance(x, Sym) and x.is_bool()): return x
    return x != 0


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or not all(M.dim_eq(p, q) for p, q in zip(a._shape, b._shape)): return False
    return M.np_all(a == b)


def average(a, axis=None, weights=None):
    if weights is None: return M.mean(a, axis)
    a, w = asarr(a), asarr(weights)
    return M.div(M.np_sum(a * w, axis), M.np_sum(w))


def broadcast_to(a, shape, **k):
    a = asarr(a); g = a.snap()
    return Arr(M.shape_arg(shape), lambda ix: g(M.bidx(a._shape, ix)))


def einsum(*a, **k): raise Unsupported('einsum')


def np_cov(m, rowvar=True, **k):
    a = asarr(m)
    if k: raise Unsupported('cov options')
    if a.ndim == 1: a = a[None]
    if not rowvar: a = a.T
    n = a._shape[1]
    mu = M.mean(a, 1)
    d = a - M.expand_dims(asarr(mu), 1)
    r = M.matmul(d, d.T) / (n - 1)
    if dim_is_int(r._shape[0]) and r._shape[0] == 1: return r.get((0, 0))
    return r


def inv(a):
    a = asarr(a)
    c = ctx()
    c.run.assumed.add('numpy.linalg.inv returns the inverse')
    F, _ = c.fun('inv', 2)
    r = Arr(a._shape, lambda ix: Sym(F(ie(ix[0]), ie(ix[1]))), 'f')
    c.events.append(('inv', a, r))
    return r


# ---------------------------------------------------------------- scipy, joblib, numdifftools
EXPM = []


def expm(a):
    """scipy.linalg.expm as an uninterpreted function of its (snapshot) argument: recorded as an event."""
    a = asarr(a)
    c = ctx()
    c.run.assumed.add('scipy.linalg.expm computes the matrix exponential; for a generator its entries are positive between communicating states')
    for ev in c.events:
        if ev[0] == 'expm' and ev[1] is a: return ev[2]
    F, f_ = c.fun('expm', 2)
    r = Arr(a._shape, lambda ix: Sym(F(ie(ix[0]), ie(ix[1]))), 'f')
    c.events.append(('expm', a.copy(), r))
    hook = c.__dict__.get('expm_hook')
    if hook: hook(a, r)
    return r


def loggamma(x):
    def f(v):
        if isinstance(v, Sym): return Sym(LGAMMA(core.to_real(v.e)), v.bad)
        if isinstance(v, int) and 1 <= v <= 20: return core.slog(math.factorial(v - 1))
        return Sym(LGAMMA(core.rv(v)))
    return M.ew1(f, x)


class OptResult:
    pass


def minimize(fun, x0, args=(), method=None, bounds=None, tol=None, **k):
    """Contract: returns an object with x inside the bounds and fun == fun(x)."""
    c = ctx()
    c.run.assumed.add('scipy.optimize.minimize returns a point inside the bounds with its objective value')
    x0 = asarr(x0)
    x = Arr(x0._shape, (lambda F: (lambda ix: Sym(F(*[ie(i) for i in ix]))))(c.fun('xopt', x0.ndim)[0]), 'f')
    r = OptResult()
    r.x = x
    if bounds is not None:
        bs = M.seq(bounds)
        for i, b in enumerate(bs):
            lo, hi = b
            for v, op in ((lo, '>='), (hi, '<=')):
                if v is None: continue
                cc = compare(op, x.get((i,)), v)
                if cc is False: raise core.Infeasible()
                if cc is not True: c.assume(cc)
    r.bounds, r.fun_, r.x0, r.args = bounds, fun, x0, args
    r.fun = fun(x, *args)
    c.events.append(('minimize', r))
    return r


class Parallel:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def __call__(self, tasks):
        if isinstance(tasks, SymList):
            from .instrument import comp
            return comp('list', tasks, lambda t: t(), None)
        return [t() for t in tasks]


class Delayed:
    def __init__(self, f, a, k): self.f, self.a, self.k = f, a, k
    def __call__(self): return self.f(*self.a, **self.k)
    def _subst(self, pairs):
        return Delayed(self.f, tuple(M.subst(x, pairs) for x in self.a), {n: M.subst(x, pairs) for n, x in self.k.items()})


def delayed(f):
    return lambda *a, **k: Delayed(f, a, k)


def mod(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items(): setattr(m, k, v)

    def miss(n):
        if n.startswith('__'): raise AttributeError(n)
        return M.unsup('%s.%s' % (name, n))
    m.__getattr__ = miss
    return m


# ---------------------------------------------------------------- itertools
def it_repeat(x, n=None):
    if n is None: return _it.repeat(x)
    n = norm_dim(n)
    if dim_is_int(n): return _it.repeat(x, n)
    return SymList(n, lambda k: x)


class ItChain:
    def __call__(self, *its):
        if any(isinstance(i, SymList) for i in its):
            r = its[0] if isinstance(its[0], (SymList, list)) else list(its[0])
            for x in its[1:]: r = M.symlist_cat(r, x if isinstance(x, (SymList, list)) else list(x))
            return r
        return _it.chain(*its)

    @staticmethod
    def from_iterable(it):
        if isinstance(it, SymList): raise Unsupported('chain.from_iterable of symbolic length')
        return _it.chain.from_iterable(it)


def it_count(start=0, step=1):
    from .instrument import Seq
    if core.CTX is None: return _it.count(start, step)
    return Seq(lambda k: norm_dim(start + step * k))


def it_islice(it, *a):
    from .instrument import Seq
    if isinstance(it, Seq):
        start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0] or 0, a[1], (a[2] if len(a) > 2 else 1) or 1)
        if step != 1: raise Unsupported('islice with a step')
        if stop is None:
            it.pos = norm_dim(it.pos + start)
            return it
        n = norm_dim(stop - start)
        if dim_is_int(n) and dim_is_int(it.pos): return _it.islice(it, start, stop)
        p = it.pos
        it.pos = norm_dim(p + stop)
        return SymList(n, lambda k: it.at(norm_dim(p + start + k)))
    if any(not dim_is_int(x) for x in a if x is not None): raise Unsupported('islice to a symbolic length')
    return _it.islice(it, *a)


def make_itertools():
    m = types.ModuleType('itertools')
    for n in dir(_it):
        if not n.startswith('__'): setattr(m, n, getattr(_it, n))
    m.repeat, m.chain, m.count, m.islice = it_repeat, ItChain(), it_count, it_islice
    return m


def make_math():
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'): setattr(m, n, getattr(math, n))
    m.exp, m.log, m.sqrt, m.pi, m.fabs = core.sexp, core.slog, core.ssqrt, Sym(PI), core.sabs
    m.isinf, m.isnan, m.inf = M.isinf, M.isnan, INF
    m.floor = lambda x: Sym(z3.ToInt(core.to_real(x.e)), x.bad) if isinstance(x, Sym) else math.floor(x)
    m.ceil = lambda x: Sym(-z3.ToInt(-core.to_real(x.e)), x.bad) if isinstance(x, Sym) else math.ceil(x)
    m.prod = lambda xs, start=1: M.prod(asarr(xs)) * start
    return m


def modules():
    np = make_numpy()
    sc_l = mod('scipy.linalg', expm=expm, solve=M.solve, inv=inv)
    sc_s = mod('scipy.special', loggamma=loggamma, gammaln=loggamma, logsumexp=M.unsup('logsumexp'))
    sc_o = mod('scipy.optimize', minimize=minimize)
    sc = mod('scipy', linalg=sc_l, special=sc_s, optimize=sc_o)
    return {'numpy': np, 'numpy.random': np.random, 'numpy.linalg': np.linalg, 'scipy': sc, 'scipy.linalg': sc_l, 'scipy.special': sc_s, 'scipy.optimize': sc_o,
            'joblib': mod('joblib', Parallel=Parallel, delayed=delayed),
            'numdifftools': mod('numdifftools', Gradient=M.unsup('numdifftools.Gradient'), Hessian=M.unsup('numdifftools.Hessian')),
            'itertools': make_itertools(), 'math': make_math()}
