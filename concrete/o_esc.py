"""C08, C09, C10: escape decisions, minima and layers against the eigenfunction expansion of the killed heat kernel."""
import numpy as np
from concrete.lib import oracle, Skip
from ctbayes.sdelib import hitting

NS = np.arange(1, 400)


def phi(x, T): return np.exp(-x * x / (2 * T)) / np.sqrt(2 * np.pi * T)


def stay_brownian(T, a, b, u):
    """P(bridge a -> b stays in (-u, u)), by the eigenfunctions of the interval"""
    if u <= max(abs(a), abs(b)): return 0.0
    w = 2 * u
    p = 2 / w * np.sum(np.sin(NS * np.pi * (a + u) / w) * np.sin(NS * np.pi * (b + u) / w) * np.exp(-NS ** 2 * np.pi ** 2 * T / (2 * w * w)))
    return p / phi(b - a, T)


def stay_bessel(T, a, b, u):
    """P(three-dimensional Bessel bridge a -> b stays below u)"""
    if u <= max(a, b): return 0.0
    if a == 0:
        p = 2 / u * np.sum(NS * np.pi / u * np.sin(NS * np.pi * b / u) * np.exp(-NS ** 2 * np.pi ** 2 * T / (2 * u * u)))
        return p / (2 * b / T * phi(b, T))
    p = 2 / u * np.sum(np.sin(NS * np.pi * a / u) * np.sin(NS * np.pi * b / u) * np.exp(-NS ** 2 * np.pi ** 2 * T / (2 * u * u)))
    return p / (phi(b - a, T) * -np.expm1(-2 * a * b / T))


def case(t, kind):
    u = t.rng.uniform(.3, 3)
    T = u * u * float(t.rng.choice([t.rng.uniform(.15, 1.5), t.rng.uniform(1.5, 3.2), t.rng.uniform(3, 12)]))
    if kind == 'brownian': a, b = t.rng.uniform(-.95, .95, 2) * u
    else:
        a, b = t.rng.uniform(.05, .95, 2) * u
        if t.rng.integers(2): a = 0
    stay = stay_brownian if kind == 'brownian' else stay_bessel
    p = 1 - stay(T, a, b, u)
    ub = None
    if t.rng.integers(2):
        ub = u * t.rng.uniform(1.05, 2)
        q = stay(T, a, b, ub)
        if q < 1e-6: raise Skip()
        p = 1 - stay(T, a, b, u) / q
    return T, a, b, u, ub, p


def decide(t, kind):
    T, a, b, u, ub, p = case(t, kind)
    f = hitting.sample_brownbr_esc if kind == 'brownian' else hitting.sample_bessel3br_esc
    ser = hitting.series_brownbr_esc if kind == 'brownian' else hitting.series_bessel3br_esc
    t.note(kind=kind, fin_t=T, init_x=a, fin_x=b, ue_x=u, ub_x=ub, probability=p)
    tol = 1e-6
    for d in (1e-5, 1e-3, .05, .3):
        if p - d > tol: t.check(f(T, a, b, u, ub, float(p - d)) is True, 'escape for a seed below the probability', seed=p - d)
        if p + d < 1 - tol: t.check(f(T, a, b, u, ub, float(p + d)) is False, 'no escape for a seed above the probability', seed=p + d)
    g = ser(T, a, b, u, ub)
    vals = [next(g) for _ in range(80)]
    t.close(vals[-1], p, 'limit of the series', atol=1e-6)
    if kind == 'brownian' or a or T < 3 * u * u:
        t.check(np.array(vals[::2]) >= p - tol, 'odd values are upper bounds', values=vals[:6])
        t.check(np.array(vals[1::2]) <= p + tol, 'even values are lower bounds', values=vals[:6])
    s = float(t.rng.uniform())
    out = max(abs(a), abs(b))
    t.check(f(T, a, b, out, None, s) is True, 'touching the level is an escape')
    t.check(f(T, a, b, u, u * .999 if u * .999 > out else u, s) is False if u * .999 > out else True, 'a bound below the level is no escape')
    seed = int(t.rng.integers(1 << 30))
    t.check(f(T, a, b, u, ub, None, np.random.default_rng(seed)) == f(T, a, b, u, ub, np.random.default_rng(seed).uniform()), 'without a seed one uniform is drawn')


@oracle('C09', iters=600)
def brownian_escape(t):
    """decisions and series of Brownian bridges against the killed heat kernel"""
    decide(t, 'brownian')


@oracle('C09', iters=600)
def bessel_escape(t):
    """decisions and series of Bessel bridges against the killed heat kernel"""
    decide(t, 'bessel')
