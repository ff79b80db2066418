"""C15: exact-algorithm acceptance and Poisson estimators, against closed forms of the Ornstein-Uhlenbeck bridge."""
import numpy as np
from itertools import repeat
from concrete.lib import oracle
from ctbayes.ea3lib import seed as sd, skeleton as sk
from ctbayes.ito.models import ou
from ctbayes.misc.exceptions import BudgetConstraintError


def likelihood(b, T, x, y):
    """E exp(-int phi) over Brownian bridges from x to y, phi the discrepancy of dX = -bX dt + dW"""
    m, v = x * np.exp(-b * T), (1 - np.exp(-2 * b * T)) / (2 * b)
    p = np.exp(-(y - m) ** 2 / (2 * v)) / np.sqrt(v)
    q = np.exp(-(y - x) ** 2 / (2 * T)) / np.sqrt(T)
    return p / q * np.exp(b * (y ** 2 - x ** 2) / 2)


def middle(b, T, x, y, s):
    f = lambda h: (np.exp(-b * h), (1 - np.exp(-2 * b * h)) / (2 * b))
    (m1, v1), (m2, v2) = f(s), f(T - s)
    v = 1 / (1 / v1 + m2 ** 2 / v2)
    return v * (m1 * x / v1 + m2 * y / v2), v


def case(t):
    b, T = float(t.rng.uniform(.3, 1.2)), float(t.rng.uniform(.4, 2.5))
    x = float(t.rng.choice([t.rng.normal(0, .7), t.rng.choice([-1, 1]) * t.rng.uniform(.8, 1.3) / np.sqrt(b)])); y = x + float(t.rng.normal(0, .3))
    if t.rng.integers(3) == 0: b, T, x = 1., 1., float(t.rng.normal(0, .3)); y = float(t.rng.choice([-1, 1]) * t.rng.uniform(2, 3))
    if t.rng.integers(2): x, y = y, x
    thi = np.array([b, 1.])
    ops, = ou.gen_normops(thi, np.array([0, T]), np.array([x, y]))
    t.note(bet=b, fin_t=T, init_x=x, fin_x=y)
    return b, T, x, y, thi, ops


def layer_box(z, ops):
    lo, hi = min(z.tight_z, z.loose_z), max(z.tight_z, z.loose_z)
    return np.min(ops[1](np.array([0., 1.]), np.repeat(lo, 2))[1]), np.max(ops[1](np.array([0., 1.]), np.repeat(hi, 2))[1])


@oracle('C15', iters=40, min_iters=6)
def seed_coins(t):
    """mean of success times discounted weight, and of the estimator, against the exact likelihood"""
    b, T, x, y, thi, ops = case(t)
    g = t.gen(); phi, bd = ou.eval_disc(thi), ou.eval_bounds_disc(thi)
    want = likelihood(b, T, x, y)
    a, e = [], []
    size = int(t.rng.choice([1, 2, 4, 30, 30])); t.note(batch_size=size)
    for _ in range(500):
        z = sd.sample_raw_seed(ou.bounds_x, *ops, g)
        lo, hi = layer_box(z, ops)
        lb = bd(lo, hi)[1]
        ok, w, z1 = sd.flip_poisson_coin(z, *ops, phi, bd, g, size)
        t.close(w, -T * lb, 'log weight is minus the integral of the lower bound', seed=z)
        t.close(sd.integrate_disc_bound(z1, *ops, bd), -T * lb, 'integral of the lower bound', seed=z1)
        a.append(np.exp(w) * bool(ok))
        z = sd.sample_raw_seed(ou.bounds_x, *ops, g)
        lb, ub = bd(*layer_box(z, ops))[1:]
        v, w, z1 = sd.est_poisson_coin(z, *ops, phi, bd, g)
        t.close(w, -T * lb, 'log weight of the estimator', seed=z)
        n = len(z1.s) - len(z.s)
        xs = ops[1](z1.s, z1.z)[1][np.isin(z1.s, z.s, invert=True)]
        t.close(v, np.sum(np.log(ub - phi(xs)) - np.log(ub - lb)), 'estimator over the points revealed', rtol=1e-6, atol=1e-8, seed=z, refined=z1)
        e.append(np.exp(v + w))
    t.mean_is(a, want, max(np.std(a), .1 * want), 'success times discounted weight is unbiased', sig=6.5)
    t.mean_is(e, want, max(np.std(e), .05 * want), 'estimator is unbiased', sig=8)


@oracle('C15', iters=30, min_iters=4)
def bridges(t):
    """accepted bridges against the exact marginal law"""
    b, T, x, y, thi, ops = case(t)
    g = t.gen(); phi, bd = ou.eval_disc(thi), ou.eval_bounds_disc(thi)
    s = T * float(t.rng.uniform(.3, .7)); m, v = middle(b, T, x, y, s)
    t.note(at=s)
    it = sd.sample_bridge(ou.bounds_x, *ops, phi, bd, g)
    xs = np.array([sd.interpolate_seed(next(it), np.array([s]), *ops, g)[1][0] for _ in range(400)])
    t.mean_is(xs, m, np.sqrt(v), 'mean of accepted bridges (weights)'); t.mean_is((xs - m) ** 2, v, np.sqrt(2) * v, 'variance of accepted bridges (weights)', sig=7)
    it = sk.sample_skeleton(T, x, ou.bounds_x, repeat(y), phi, bd, g)
    xs = np.array([next(it)(np.array([s]), g)[0] for _ in range(400)])
    t.mean_is(xs, m, np.sqrt(v), 'mean of accepted paths'); t.mean_is((xs - m) ** 2, v, np.sqrt(2) * v, 'variance of accepted paths', sig=7)
    e = []
    for _ in range(300):
        k = sk.sample_raw_skeleton(T, x, y, ou.bounds_x, g)
        r, k1 = sk.est_poisson_coin(k, phi, bd, g)
        e.append(np.exp(r))
    want = likelihood(b, T, x, y) * np.exp(T * ou.eval_inf_disc(thi))
    t.mean_is(e, want, max(np.std(e), .05 * want), 'estimator with correction is unbiased', sig=8)
    ok = [sk.flip_poisson_coin(sk.sample_raw_skeleton(T, x, y, ou.bounds_x, g), phi, bd, g)[0] for _ in range(300)]
    t.mean_is(ok, want, max(np.sqrt(want * max(1 - want, 0)), .03), 'acceptance probability of paths')


@oracle('C15', iters=20, min_iters=3)
def exhaustion(t):
    """no acceptance within the budget raises the budget error"""
    b, T, x, y, thi, ops = case(t)
    g = t.gen(); phi = lambda z: 0 * z + 1e3 / T; bd = lambda l, u: (0., 0., 1e3 / T)
    k = int(t.rng.integers(1, 4))
    t.raises(BudgetConstraintError, lambda: next(sd.sample_bridge(ou.bounds_x, *ops, phi, bd, g, k)), 'weights')
    t.raises(BudgetConstraintError, lambda: next(sk.sample_skeleton(T, x, ou.bounds_x, repeat(y), phi, bd, g, k)), 'paths')
    z = sd.sample_raw_seed(ou.bounds_x, *ops, g)
    ok, w, z1 = sd.flip_poisson_coin(z, *ops, phi, lambda l, u: (0., 0., np.inf), g)
    t.check(not ok, 'an unbounded discrepancy is rejected')
    t.check(sd.est_poisson_coin(z, *ops, phi, lambda l, u: (0., 0., np.inf), g)[0] == -np.inf, 'an unbounded discrepancy is estimated as impossible')
    # always above: certain success
    ok, w, z1 = sd.flip_poisson_coin(z, *ops, lambda q: 0 * q, lambda l, u: (0., 0., 5.), g)
    t.check(ok and w == 0, 'a discrepancy at its lower bound is accepted')
