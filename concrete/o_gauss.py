"""C07, C12: the law of a bridge minimum and the Gaussian moment formulas."""
import numpy as np
from concrete.lib import oracle
from ctbayes.sdelib import hitting, moments


def bridge(t):
    T = t.pos(); a = t.real(2); b = a + t.rng.normal() * np.sqrt(T) * t.rng.choice([.1, 1, 2])
    return T, a, b


def F(m, T, a, b): return float(np.exp(-2 * (a - m) * (b - m) / T)) if m < min(a, b) else 1.0


def bounds(t, T, a, b):
    lo, hi = None, None
    m = min(a, b); s = np.sqrt(T)
    k = t.rng.integers(5)
    if k == 1: hi = m - t.rng.uniform(0.02, .6) * s
    if k == 2: lo = m - t.rng.uniform(0.05, 1) * s
    if k == 3: hi = m - t.rng.uniform(0.01, .3) * s; lo = hi - t.rng.uniform(0.1, 1) * s
    if k == 4: hi = m; lo = m - t.rng.uniform(0.1, 2) * s
    return lo, hi


@oracle('C07', iters=400)
def min_cdf(t):
    """distribution function and quantiles of the minimum against the closed form"""
    T, a, b = bridge(t)
    lo, hi = bounds(t, T, a, b)
    t.note(fin_t=T, init_x=a, fin_x=b, lb_min_x=lo, ub_min_x=hi)
    l, h = -np.inf if lo is None else lo, min(a, b) if hi is None else hi
    Fl, Fh = (0.0 if lo is None else F(lo, T, a, b)), F(h, T, a, b)
    ms = np.sort(np.append(t.rng.uniform(max(l, h - 3 * np.sqrt(T)), h, 4), [h]))
    got = np.array([hitting.cdf_brownbr_min(m, T, a, b, lo, hi) for m in ms])
    t.close(got, [(F(m, T, a, b) - Fl) / (Fh - Fl) for m in ms], 'distribution function', rtol=1e-6, atol=1e-9, at=ms)
    t.check(np.diff(got) >= -1e-9, 'distribution function is nondecreasing', at=ms, got=got)
    if lo is not None: t.close(hitting.cdf_brownbr_min(lo, T, a, b, lo, hi), 0, 'zero at the lower bound', atol=1e-7)
    t.close(hitting.cdf_brownbr_min(h, T, a, b, lo, hi), 1, 'one at the upper bound', atol=1e-7)
    p = float(t.rng.choice([t.rng.uniform(0.001, .999), .5, 1e-3, 1 - 1e-3]))
    q = hitting.ppf_brownbr_min(p, T, a, b, lo, hi)
    t.check(l - 1e-7 * (1 + abs(l)) <= q <= h + 1e-7, 'quantile within the bounds', p=p, q=q)
    t.close((F(q, T, a, b) - Fl) / (Fh - Fl), p, 'quantile inverts the distribution function', rtol=1e-5, atol=1e-6, p=p, q=q)
    with np.errstate(divide='ignore'):
        q0, q1 = hitting.ppf_brownbr_min(0, T, a, b, lo, hi), hitting.ppf_brownbr_min(1, T, a, b, lo, hi)
    t.close(q0, l, 'quantile of zero', rtol=1e-5, atol=1e-5)
    t.close(q1, h, 'quantile of one', rtol=1e-5, atol=1e-5)


@oracle('C12', iters=400)
def moment_formulas(t):
    """means and covariances against their definitions"""
    n = int(t.rng.integers(1, 6)); T = t.pos(); x, b, mu = t.real(), t.real(), t.real()
    ts = np.sort(t.rng.uniform(0.02, .98, n)) * T
    if t.rng.integers(3) == 0: ts = t.rng.permutation(ts)
    t.note(t=ts, fin_t=T, init_x=x, fin_x=b, mu=mu)
    m, c = moments.moments_wiener(ts.copy(), x, mu)
    t.close(m, x + mu * ts, 'mean of the Wiener process'); t.close(c, np.minimum.outer(ts, ts), 'covariance of the Wiener process')
    m, c = moments.moments_brownbr(ts.copy(), T, x, b)
    t.close(m, x + (b - x) * ts / T, 'mean of the bridge')
    t.close(c, np.minimum.outer(ts, ts) * (T - np.maximum.outer(ts, ts)) / T, 'covariance of the bridge')
    k = int(t.rng.integers(2, 6))
    A = t.rng.normal(size=(k, k)); S = A @ A.T + np.eye(k) * .1; u = t.rng.normal(size=k)
    t.note(umean=u, ucov=S)
    m, c = moments.moments_gaussian_bridge(x, u.copy(), S.copy())
    w = S[:-1, -1] / S[-1, -1]
    t.close(m, u[:-1] + w * (x - u[-1]), 'conditional mean', rtol=1e-6, atol=1e-7)
    t.close(c, S[:-1, :-1] - np.outer(w, w) * S[-1, -1], 'conditional covariance', rtol=1e-6, atol=1e-7)
