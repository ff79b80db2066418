"""C12: Gaussian moment formulas."""
from pyvc.runner import unit, eqv
from pyvc.core import smin2, smax2
from ._spec import MO


@unit('C12', functions=[MO + 'moments_wiener'])
def wiener(v):
    """mean x + mu t and covariance min(s, t), for every number of times"""
    n = v.dim('n', 1)
    t = v.vec('t', n, lambda i, x: x > 0)
    x, mu = v.real('x'), v.real('mu')
    kw = v.choose(0, 1, 2)
    m, c = v.call(MO + 'moments_wiener', t, *[(x, mu), (x,), ()][kw])
    x, mu = [(x, mu), (x, 0), (0, 0)][kw]
    v.ensure_len('as many means as times', m, n)
    v.ensure('covariance is n by n', [c.ndim == 2, v_eq(c.shape[0], n), v_eq(c.shape[1], n)])
    v.forall('mean', n, lambda i: eqv(m.get((i,)), x + mu * t.get((i,))))
    i = v.index(n)
    v.forall('covariance', n, lambda j: eqv(c.get((i, j)), smin2(t.get((i,)), t.get((j,)))))


def v_eq(a, b): return a == b


@unit('C12', functions=[MO + 'moments_brownbr'])
def brownbr(v):
    """mean a + (b-a) t/T and covariance min(s,t) (T - max(s,t)) / T"""
    n = v.dim('n', 1)
    kw = v.choose(0, 1)
    T, a, b = (v.real('T', pos=True), v.real('a'), v.real('b')) if kw == 0 else (1, 0, 0)
    t = v.vec('t', n, lambda i, x: [x > 0, x < T])
    m, c = v.call(MO + 'moments_brownbr', t, *((T, a, b) if kw == 0 else ()))
    v.ensure_len('as many means as times', m, n)
    v.ensure('covariance is n by n', [c.ndim == 2, v_eq(c.shape[0], n), v_eq(c.shape[1], n)])
    v.forall('mean', n, lambda i: eqv(m.get((i,)), a + (b - a) * t.get((i,)) / T))
    i = v.index(n)
    s = t.get((i,))
    v.forall('covariance', n, lambda j: eqv(c.get((i, j)), smin2(s, t.get((j,))) * (T - smax2(s, t.get((j,)))) / T))


@unit('C12', functions=[MO + 'moments_gaussian_bridge'])
def gaussian_bridge(v):
    """conditioning on the last coordinate"""
    n = v.dim('n', 2)
    mu = v.vec('mu', n)
    S = v.array('S', (n, n))
    if v.bounded:
        for i in range(n):
            for j in range(i): v.assume(S.get((i, j)) == S.get((j, i)))
    else:
        v.known_pairs(n, lambda i, j: S.get((i, j)) == S.get((j, i)), {'S'})
    v.assume(S.get((n - 1, n - 1)) > 0)
    y = v.real('y')
    m, c = v.call(MO + 'moments_gaussian_bridge', y, mu, S)
    l = n - 1
    v.ensure_len('one mean fewer', m, n - 1)
    v.forall('conditional mean', n - 1, lambda i: eqv(m.get((i,)), mu.get((i,)) + S.get((i, l)) / S.get((l, l)) * (y - mu.get((l,)))))
    i = v.index(n - 1)
    v.forall('conditional covariance', n - 1, lambda j: eqv(c.get((i, j)), S.get((i, j)) - S.get((i, l)) * S.get((j, l)) / S.get((l, l))))
