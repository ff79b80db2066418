"""C08, C10: laws of the minimum and of layers, against the killed heat kernel and the inverse Gaussian mixture."""
import numpy as np
from scipy import stats
from concrete.lib import oracle, Skip
from concrete.o_esc import NS, phi
from concrete.o_gauss import F, bounds
from ctbayes.sdelib import hitting, layers, transforms
from ctbayes.misc.exceptions import BudgetConstraintError


def stay(T, a, b, lo, hi):
    """P(bridge stays in (lo, hi))"""
    if lo >= min(a, b) or hi <= max(a, b): return 0.0
    if np.isinf(lo) and np.isinf(hi): return 1.0
    if np.isinf(hi): return 1 - np.exp(-2 * (a - lo) * (b - lo) / T)
    if np.isinf(lo): return 1 - np.exp(-2 * (hi - a) * (hi - b) / T)
    w = hi - lo
    if w > 6 * np.sqrt(T) + abs(b - a):     # the expansion cancels: images instead
        k = np.arange(-3, 4)
        return float(np.sum(np.exp(-((b - a + 2 * k * w) ** 2 - (b - a) ** 2) / (2 * T)) - np.exp(-((2 * lo - b - a + 2 * k * w) ** 2 - (b - a) ** 2) / (2 * T))))
    n = np.arange(1, 200)
    p = 2 / w * np.sum(np.sin(n * np.pi * (a - lo) / w) * np.sin(n * np.pi * (b - lo) / w) * np.exp(-n ** 2 * np.pi ** 2 * T / (2 * w * w)))
    return p / phi(b - a, T)


def time_cdf(t, T, a, b, m):
    """P(time of the minimum <= t | minimum m)"""
    v = T / t - 1       # t <= s  <=>  v >= T/s - 1
    r = (b - m) / (a - m)
    ig = lambda x, mu, lam: stats.invgauss.cdf(x, mu / lam, scale=lam)
    p = 1 / (1 + r)
    return p * (1 - ig(v, r, (b - m) ** 2 / T)) + (1 - p) * ig(1 / v, 1 / r, (a - m) ** 2 / T)


def bridge(t):
    T = t.pos(); a = t.real(); b = a + t.rng.normal() * np.sqrt(T)
    if t.rng.integers(8) == 0: b = a
    return T, a, b


@oracle('C08', iters=60)
def minimum_law(t):
    """value and time of the minimum, also deterministic, against their distribution functions"""
    T, a, b = bridge(t); lo, hi = bounds(t, T, a, b)
    t.note(fin_t=T, init_x=a, fin_x=b, lb_min_x=lo, ub_min_x=hi)
    n = 1500; g = t.gen()
    det = t.rng.integers(2)
    if det:
        lo = hi = None
        s = [transforms.gen_seeded_brownbr_min(g.uniform(size=3), g.chisquare(1), T, a, b) for _ in range(n)]
    else: s = [hitting.sample_brownbr_min(T, a, b, lo, hi, g) for _ in range(n)]
    tm, m = np.array(s).T
    t.check((tm > 0) & (tm < T), 'attained inside the interval')
    t.check(m <= min(a, b) + 1e-12, 'not above the ends')
    if lo is not None: t.check(m >= lo - 1e-9 * (1 + abs(lo)), 'above the lower bound')
    if hi is not None: t.check(m <= hi + 1e-9 * (1 + abs(hi)), 'below the upper bound')
    Fl, Fh = 0 if lo is None else F(lo, T, a, b), F(min(a, b) if hi is None else hi, T, a, b)
    t.uniform_is([(F(x, T, a, b) - Fl) / (Fh - Fl) for x in m], 'law of the value' + (', deterministic' if det else ''))
    ok = (min(a, b) - m > 1e-4 * np.sqrt(T))
    if ok.sum() > 500: t.uniform_is(time_cdf(tm[ok], T, a, b, m[ok]), 'law of the time given the value' + (', deterministic' if det else ''))


@oracle('C08', iters=25)
def bounded_minimum_law(t):
    """the minimum of a bridge that stays below a bound"""
    T, a, b = bridge(t)
    ub = max(a, b) + t.rng.uniform(.2, 1) * np.sqrt(T)
    lo = hi = None
    if t.rng.integers(2): lo = min(a, b) - t.rng.uniform(.3, 1) * np.sqrt(T)
    if t.rng.integers(2): hi = min(a, b) - t.rng.uniform(.05, .2) * np.sqrt(T)
    t.note(fin_t=T, init_x=a, fin_x=b, ub_x=ub, lb_min_x=lo, ub_min_x=hi)
    P = lambda m: stay(T, a, b, -np.inf, ub) - stay(T, a, b, m, ub)
    h = min(a, b) if hi is None else hi
    Pl, Ph = 0 if lo is None else P(lo), P(h)
    if Ph - Pl < .03: raise Skip()
    g = t.gen(); n = 600
    m = [hitting.sample_layerbr_min(T, a, b, ub, lo, hi, g)[1] for _ in range(n)]
    t.uniform_is([(P(x) - Pl) / (Ph - Pl) for x in m], 'law of the minimum below the bound')
    t.raises(BudgetConstraintError, lambda: [hitting.sample_layerbr_min(1., 0., 0., .1, -.05, None, g, 3) for _ in range(20)], 'hopeless proposals exhaust the budget')


def edges(i, T, a, b, lb, ub):
    if i == 0: return min(a, b), max(a, b)
    q = lambda a, b, lb: (a + b - np.sqrt((b - a) ** 2 - 2 * T * np.log(p * (1 - Fl(a, b, lb)) + Fl(a, b, lb)))) / 2
    Fl = lambda a, b, lb: 0 if np.isinf(lb) else F(lb, T, a, b)
    p = 1 / (i * i + 1)
    return q(a, b, lb), -q(-a, -b, -ub)


@oracle('C10', iters=300)
def layer_edges(t):
    """nested layers, containing the ends, within the state bounds, symmetric for symmetric bounds"""
    T, a, b = bridge(t); s = np.sqrt(T)
    lb = -np.inf if t.rng.integers(2) else min(a, b) - t.rng.uniform(.05, 2) * s
    ub = np.inf if t.rng.integers(2) else max(a, b) + t.rng.uniform(.05, 2) * s
    sym = t.rng.integers(3) == 0
    if sym: ub = a + b - lb
    t.note(fin_t=T, init_x=a, fin_x=b, lb_x=lb, ub_x=ub)
    E = [layers.compute_edges(i, T, a, b, lb, ub) for i in range(8)]
    t.close(E[0], (min(a, b), max(a, b)), 'layer zero is the range of the ends')
    for i, (e, f) in enumerate(zip(E, E[1:])):
        t.check(f[0] < e[0] and e[1] < f[1], 'layers grow', layer=i + 1, inner=e, outer=f)
        t.check(lb <= f[0] and f[1] <= ub, 'within the state bounds', layer=i + 1, edges=f)
        if sym: t.close(f[0] + f[1], a + b, 'symmetric for symmetric bounds', layer=i + 1, atol=1e-8)
        t.close(f, edges(i + 1, T, a, b, lb, ub), 'edges', rtol=1e-6, atol=1e-7, layer=i + 1)
    far = layers.compute_edges(10 ** 7, T, a, b, lb, ub)
    if np.isfinite(lb): t.close(far[0], lb, 'converges to the lower bound', atol=1e-5 * s)
    if np.isfinite(ub): t.close(far[1], ub, 'converges to the upper bound', atol=1e-5 * s)


@oracle('C10', iters=300)
def sampled_layer(t):
    """the first layer that is not left, for the seed drawn; its anchor sectors"""
    T, a, b = bridge(t); s = np.sqrt(T)
    k = t.rng.integers(3)
    lb = min(a, b) - t.rng.uniform(.5, 2) * s if k == 1 else -np.inf
    ub = max(a, b) + t.rng.uniform(.5, 2) * s if k == 2 else np.inf
    t.note(fin_t=T, init_x=a, fin_x=b, lb_x=lb, ub_x=ub)
    for _ in range(4):
        seed = int(t.rng.integers(1 << 30))
        u = np.random.default_rng(seed).uniform()
        if k == 1: u = F(lb, T, a, b) + u * (1 - F(lb, T, a, b))
        if k == 2: u = F(-ub, T, -a, -b) + u * (1 - F(-ub, T, -a, -b))
        l = layers.sample_layer(T, a, b, lb, ub, np.random.default_rng(seed))
        q = [1 - stay(T, a, b, *edges(j, T, a, b, lb, ub)) for j in (l - 1, l)]
        t.check(q[1] <= u + 1e-6 and (l == 1 or q[0] >= u - 1e-6), 'first layer not escaped', layer=l, seed=u, escape=q)
        lo, s0, s1 = layers.sample_anchor(T, a, b, lb, ub, np.random.default_rng(seed))
        e0, e1 = edges(l - 1, T, a, b, lb, ub), edges(l, T, a, b, lb, ub)
        t.close(s0, (e1[0], e0[0]), 'lower sector', rtol=1e-6, atol=1e-7); t.close(s1, (e0[1], e1[1]), 'upper sector', rtol=1e-6, atol=1e-7)


@oracle('C10', iters=12)
def layer_law(t):
    """with two bounds: the layer of a bridge known to stay between them"""
    T, a, b = bridge(t); s = np.sqrt(T)
    lb, ub = min(a, b) - t.rng.uniform(.5, 1.5) * s, max(a, b) + t.rng.uniform(.5, 1.5) * s
    t.note(fin_t=T, init_x=a, fin_x=b, lb_x=lb, ub_x=ub)
    g = t.gen(); n = 800
    l = np.array([layers.sample_layer(T, a, b, lb, ub, g) for _ in range(n)])
    for j in (1, 2, 3):
        p = stay(T, a, b, *edges(j, T, a, b, lb, ub)) / stay(T, a, b, lb, ub)
        t.mean_is(l <= j, p, np.sqrt(max(p * (1 - p), 1e-3)), 'frequency of layers up to %d' % j)
