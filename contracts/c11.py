"""C11: Wiener, bridge and Bessel samplers as affine maps of independent standard normals."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from pyvc.core import ssqrt, smin2, smax2, compare
from ._spec import *


def is_noise(v, name, e, r, k, d, n):
    """e is r times the standard normal drawn for time k and coordinate d"""
    ds = v.drawn('Z')
    v.ensure('only standard normals are drawn', len(ds) == len(v.drawn()) and len(ds) > 0)
    if len(ds) > 1:     # one draw per coordinate
        v.ensure('one vector per coordinate', all(z.value.ndim == 1 for z in ds))
        z = ds[d].value.get((k,))
    else:
        z = ds[0].value
        if z.ndim == 1: z = z.get((k,))
        else: z = z.get((k, d) if v.entails(eqv(z._shape[0], n)) else (d, k))
    v.ensure_eq(name, e, r * z)


def times(v, hi=None):
    n = v.dim('n', 1)
    t = v.freeze(v.sorted('t', n, lo=0, hi=hi), 'times')
    return n, t, (lambda i: t.get((i,)))


@unit('C11', functions=[P + 'sample_wiener'])
def wiener(v):
    """increments are drift times duration plus root of the duration times an own standard normal"""
    n, t, at = times(v)
    D = v.choose(1, 2, 3)
    x0, mu = v.freeze(v.vec('x0', D), 'start'), v.choose(None, v.freeze(v.vec('mu', D), 'drift'))
    x = v.call(P + 'sample_wiener', t, x0, mu, v.gen())
    v.ensure('one row per time, one column per coordinate', conj([eqv(x._shape[0], n), eqv(x._shape[1], D)]))
    k, d = v.index(n, 'time'), v.index(D, 'coordinate')
    m = mu.get((d,)) if mu is not None else 0
    if v.cases(k == 0):
        dt, dx = at(k), x.get((k, d)) - x0.get((d,))
    else: dt, dx = at(k) - at(k - 1), x.get((k, d)) - x.get((k - 1, d))
    v.ensure('duration is positive', dt > 0)
    is_noise(v, 'normal of the increment', dx - m * dt, ssqrt(dt), k, d, n)


@unit('C11', functions=[P + 'sample_brownbr'])
def bridge(v):
    """x_i = mean + c_i B(tau_i), B a standard Wiener process, with the covariance of the bridge"""
    T = v.real('T', pos=True)
    n, t, at = times(v, T)
    a, b = v.real('a'), v.real('b')
    x = v.call(P + 'sample_brownbr', t, T, a, b, v.gen())
    v.ensure('one value per time', conj([len(x._shape) == 1, eqv(x._shape[0], n)]))
    k = v.index(n, 'time')
    r = ssqrt(T)
    tau = lambda i: (at(i) / T) / (1 - at(i) / T)
    # x_i / c_i with c_i = (T - t_i) / sqrt(T) is a Wiener process with drift b / sqrt(T), from a / sqrt(T), at the times tau_i
    c = lambda i: r * (1 - at(i) / T)
    if v.cases(k == 0): dt, dx, cc = tau(k), x.get((k,)) - a / r * c(k), c(k)
    else: dt, dx, cc = tau(k) - tau(k - 1), x.get((k,)) * c(k - 1) - x.get((k - 1,)) * c(k), c(k) * c(k - 1)
    v.ensure('scales are positive', conj([cc > 0, dt > 0]))
    is_noise(v, 'normal of the increment', dx - cc * (b / r) * dt, cc * ssqrt(dt), k, 0, n)


@unit('C11', functions=[P + 'sample_brownbr'])
def bridge_covariance(v):
    """lemma: the mean is a + (b - a) t / T and c_i c_j min(tau_i, tau_j) is the covariance min(t_i, t_j) (T - max(t_i, t_j)) / T of the bridge"""
    T = v.real('T', pos=True)
    s, t = v.real('s', pos=True), v.real('t')
    v.assume(s <= t, t < T)
    c = lambda r: (T - r) / ssqrt(T)
    v.ensure('earlier time has the smaller time change', s / (T - s) <= t / (T - t))
    a, b = v.real('a'), v.real('b')
    v.ensure_eq('mean', c(s) * (a / ssqrt(T) + b / ssqrt(T) * (s / (T - s))), a + (b - a) * s / T)
    v.ensure_eq('covariance', c(s) * c(t) * (s / (T - s)), s * (T - t) / T)


def norm_of(v, x, i, coords):
    tot = 0
    for c in coords: tot = tot + c * c
    v.ensure('square is the sum of squares', conj([x.get((i,)) >= 0, eqv(x.get((i,)) * x.get((i,)), tot)]))


@unit('C11', functions=[P + 'sample_bessel'])
def bessel(v):
    """the norm of a Wiener process with start and drift in the same coordinate"""
    n, t, at = times(v)
    D = v.choose(1, 2, 3)
    a, mu = v.real('a', nonneg=True), v.choose(None, v.real('mu'))
    calls = []
    def wiener(t_, init_x, mu=None, ome=None):
        w = v.array('w', (n, M.asarr(init_x)._shape[0]))
        calls.append((M.asarr(t_), M.asarr(init_x), None if mu is None else M.asarr(mu), ome, w))
        return w
    v.contract(P + 'sample_wiener', wiener)
    ome = v.gen()
    x = v.call(P + 'sample_bessel', t, a, D, mu, ome)
    v.ensure('one Wiener process from the generator', len(calls) == 1 and calls[0][3] is ome)
    t_, x0, m_, _, w = calls[0]
    i = v.index(n, 'time')
    v.ensure('at the given times', conj([eqv(t_._shape[0], n), eqv(t_.get((i,)), at(i))]))
    v.ensure('dimension', conj([eqv(x0._shape[0], D)]))
    m = lambda d: m_.get((d,)) if m_ is not None else 0
    mu_ = mu if mu is not None else 0
    def at_coord(e): return conj([conj([eqv(x0.get((d,)), a if d == e else 0), eqv(m(d), mu_ if d == e else 0)]) for d in range(D)])
    v.ensure('start and drift in one coordinate', disj([at_coord(e) for e in range(D)]))
    v.ensure('one value per time', conj([len(x._shape) == 1, eqv(x._shape[0], n)]))
    norm_of(v, x, i, [w.get((i, d)) for d in range(D)])


@unit('C11', functions=[P + 'sample_besselbr'])
def bessel_bridge(v):
    """the norm of independent bridges from zero, one of them to the end value, the others to zero"""
    T = v.real('T', pos=True)
    n, t, at = times(v, T)
    D = v.choose(1, 2, 3)
    b = v.real('b', nonneg=True)
    calls = []
    def bridge(t, fin_t, init_x, fin_x, ome=None):
        w = v.array('w%d' % len(calls), (n,))
        calls.append((M.asarr(t), fin_t, init_x, fin_x, ome, w))
        return w
    v.contract(P + 'sample_brownbr', bridge)
    ome = v.gen()
    x = v.call(P + 'sample_besselbr', t, T, b, D, ome)
    i = v.index(n, 'time')
    v.ensure('one bridge per coordinate', len(calls) == D)
    for c in calls: v.ensure('a bridge from zero at the given times', conj([eqv(c[0]._shape[0], n), eqv(c[0].get((i,)), at(i)), eqv(c[1], T), eqv(c[2], 0), c[4] is ome]))
    v.ensure('one of them to the end value', disj([conj([eqv(c[3], b if j == e else 0) for j, c in enumerate(calls)]) for e in range(D)]))
    v.ensure('one value per time', conj([len(x._shape) == 1, eqv(x._shape[0], n)]))
    norm_of(v, x, i, [c[5].get((i,)) for c in calls])
