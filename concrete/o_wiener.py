"""C11: mean and covariance of the Gaussian samplers, squares of the Bessel samplers."""
import numpy as np
from concrete.lib import oracle
from ctbayes.sdelib import paths


def moments_agree(t, x, mean, cov, what):
    """x: one sample per row"""
    n = len(x)
    for i in range(len(mean)):
        t.mean_is(x[:, i], mean[i], np.sqrt(cov[i, i]), what + ': mean', coordinate=i)
        for j in range(i + 1):
            sd = np.sqrt(cov[i, i] * cov[j, j] + cov[i, j] ** 2)
            t.mean_is((x[:, i] - mean[i]) * (x[:, j] - mean[j]), cov[i, j], sd, what + ': covariance', 7., pair=(i, j))


@oracle('C11', iters=60, min_iters=8)
def gaussian_structure(t):
    """mean and covariance of sampled Wiener processes and Brownian bridges"""
    k, D, n, T = int(t.rng.integers(1, 5)), int(t.rng.integers(1, 4)), 1500, t.pos(3.)
    s = np.sort(t.rng.uniform(0, T, k)); a, mu, g = t.rng.normal(size=D), t.rng.normal(size=D), t.gen()
    if t.rng.integers(3) == 0: mu = None
    t.note(t=s, init_x=a, mu=mu, fin_t=T)
    x = np.array([paths.sample_wiener(s.copy(), a.copy(), mu, g) for _ in range(n)])
    t.check(x.shape == (n, k, D), 'one row per time, one column per coordinate', shape=x.shape)
    K = np.minimum.outer(s, s)
    moments_agree(t, x.reshape(n, k * D), (a + np.outer(s, np.zeros(D) if mu is None else mu)).ravel(), np.kron(K, np.eye(D)), 'Wiener process')
    b = t.real(); x = np.array([paths.sample_brownbr(s.copy(), T, float(a[0]), b, g) for _ in range(n)])
    t.check(x.shape == (n, k), 'one value per time', shape=x.shape)
    moments_agree(t, x, a[0] + (b - a[0]) * s / T, K * (T - np.maximum.outer(s, s)) / T, 'Brownian bridge')


@oracle('C11', iters=60, min_iters=8)
def bessel_structure(t):
    """squares of sampled Bessel processes and bridges: noncentral chi-square mean and covariance"""
    k, D, n, T = int(t.rng.integers(1, 4)), int(t.rng.integers(1, 4)), 2500, t.pos(3.)
    s = np.sort(t.rng.uniform(0, T, k)); a, mu, b, g = abs(t.rng.normal()), t.rng.normal(), abs(t.rng.normal()), t.gen()
    if t.rng.integers(3) == 0: mu = None
    t.note(t=s, init_x=a, mu=mu, fin_t=T, fin_x=b, dimension=D)
    K = np.minimum.outer(s, s)
    for what, x, m, K in (('Bessel process', np.array([paths.sample_bessel(s.copy(), a, D, mu, g) for _ in range(n)]), a + s * (mu or 0.), K),
                          ('Bessel bridge', np.array([paths.sample_besselbr(s.copy(), T, b, D, g) for _ in range(n)]), b * s / T, K * (T - np.maximum.outer(s, s)) / T)):
        t.check(x.shape == (n, k) and np.all(x >= 0), what + ': one nonnegative value per time', shape=x.shape, least=x.min())
        mean = m * m + D * np.diag(K)
        cov = 2 * D * K * K + 4 * np.outer(m, m) * K
        for i in range(k):
            t.mean_is(x[:, i] ** 2, mean[i], np.sqrt(cov[i, i]), what + ': mean of the square', 7.)
            for j in range(i):
                # heavier tails: products of noncentral chi-squares
                p = (x[:, i] ** 2 - mean[i]) * (x[:, j] ** 2 - mean[j])
                t.mean_is(p, cov[i, j], max(p.std(), np.sqrt(cov[i, i] * cov[j, j])), what + ': covariance of the squares', 8.)
