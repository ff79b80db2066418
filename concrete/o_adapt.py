"""Executable contracts: Bernoulli factory, random walk samplers, adaptation (C20, C21, C22)."""
import numpy as np
from .lib import oracle
from . import lib


class Fixed:
    """coins with given success probabilities from their own stream, recording their flips"""
    def __init__(self, p, rng): self.p, self.rng, self.log = p, rng, []

    def flip(self, side=None):
        ok = bool(self.rng.uniform() < (self.p if side is None else self.p[0 if side else 1]))
        st = object(); self.log.append((side, ok, st)); return ok, st

    def iter(self):
        while True: yield self.flip()

    def gen(self):
        side = yield
        while True: side = yield self.flip(side)


def prob_check(t, k, n, p, what, **kw):
    sd = np.sqrt(max(p * (1 - p), 1e-12) / n)
    t.check(abs(k / n - p) <= 5.5 * sd + 1e-12, what, observed=k / n, expected=p, draws=n, **kw)


@oracle('C20', iters=60, min_iters=24)
def twocoin(t):
    """the two-coin algorithm, round by round and in distribution"""
    from ctbayes.misc import bfactories as bf
    from ctbayes.misc.exceptions import BudgetConstraintError
    joint = t.i % 2 == 1
    w1, w2 = (t.rng.normal(0, 2, 2) + t.rng.choice([0, 50, -50]))
    p1, p2 = t.rng.choice([t.rng.uniform(.1, .9), 1.0]), t.rng.choice([t.rng.uniform(.1, .9), 1.0])
    q = float(t.rng.choice([0, 0, t.rng.uniform(.1, .9)]))
    t.note(joint=joint, w1=w1, w2=w2, p1=p1, p2=p2, pr_portkey=q)
    c = 1 / (1 + np.exp(w2 - w1))
    prop0 = object(); g = t.gen()
    N = 3000; k1 = k2 = esc = 0; one = two = rounds = 0
    c1, c2, cj = Fixed(p1, t.rng), Fixed(p2, t.rng), Fixed((p1, p2), t.rng)
    i1, i2 = c1.iter(), c2.iter()
    for _ in range(N):
        c1.log.clear(); c2.log.clear(); cj.log.clear()
        if joint: a, b, s = bf.sample_twocoin_joint(w1, w2, cj.gen(), q, g)
        else: a, b, s = bf.sample_twocoin(w1, w2, i1, i2, q, prop0, g)
        if joint: flips = cj.log
        else:
            flips = [(True,) + f[1:] for f in c1.log] + [(False,) + f[1:] for f in c2.log]
        heads = [f for f in flips if f[1]]
        one += sum(bool(f[0]) for f in flips); rounds += len(flips)
        t.check(a in (True, False) and b in (True, False), 'reports two flags')
        if heads:
            t.check(len(heads) == 1 and not b and bool(a) == bool(heads[0][0]) and s is heads[0][2], 'the first heads ends the factory and is reported with its state', flips=len(flips))
        else:
            t.check(b and not a, 'escape is reported as failure'); t.check(s is (flips[-1][2] if joint else prop0), 'escape returns the fallback state')
            t.check(q > 0, 'no escape without portkey')
        k1 += a; esc += b
    prob_check(t, one, rounds, c, 'coin one is tried with probability w1/(w1+w2)')
    s_ = c * p1 + (1 - c) * p2; f = 1 - s_
    prob_check(t, k1, N, c * p1 / (1 - f * (1 - q)), 'probability that coin one wins')
    prob_check(t, esc, N, f * q / (1 - f * (1 - q)), 'probability of escape')
    z = Fixed(0.0, t.rng); zz = Fixed((0.0, 0.0), t.rng)
    if joint: t.raises(BudgetConstraintError, lambda: bf.sample_twocoin_joint(w1, w2, zz.gen(), 0, g, 7), 'exhaustion'); t.check(len(zz.log) == 7, 'number of rounds before exhaustion', got=len(zz.log))
    else: t.raises(BudgetConstraintError, lambda: bf.sample_twocoin(w1, w2, z.iter(), z.iter(), 0, None, g, 7), 'exhaustion'); t.check(len(z.log) == 7, 'number of rounds before exhaustion', got=len(z.log))


def free(x, lb, ub):
    if np.isinf(lb) and np.isinf(ub): return x, 0.0
    l = np.log(x - lb) if np.isinf(ub) else np.log(ub - x)
    return l, -l


def bound(t):
    k = int(t.rng.integers(3)); b = t.real(2)
    return [(-np.inf, np.inf), (b, np.inf), (-np.inf, b)][k]


def inside(t, lb, ub):
    if np.isinf(lb) and np.isinf(ub): return t.real(2)
    return lb + t.pos() if np.isinf(ub) else ub - t.pos()


@oracle('C21', iters=400)
def transforms(t):
    """transforms to the reals and back"""
    from ctbayes.misc import adapt
    lb, ub = bound(t); x = inside(t, lb, ub); t.note(lb=lb, ub=ub, x=x)
    y, w = adapt.transform_to_reals(x, lb, ub)
    t.close([y, w], free(x, lb, ub), 'coordinate and log weight')
    x2, w2 = adapt.transform_to_const(y, lb, ub)
    t.close([x2, w2], [x, w], 'transforming back')
    z = t.real(2); x3, w3 = adapt.transform_to_const(z, lb, ub)
    t.check((np.isinf(lb) or x3 > lb) and (np.isinf(ub) or x3 < ub), 'stays inside', z=z, got=x3)
    t.close(free(x3, lb, ub)[1], w3, 'log weight at the proposal', z=z, rtol=1e-5, atol=1e-6)


@oracle('C21', iters=40, min_iters=16)
def proposals(t):
    """scalar and vector proposals"""
    from ctbayes.misc import adapt
    d = int(t.rng.integers(1, 4)); vec = t.i % 2 == 1
    if not vec: d = 1
    bs = [bound(t) for _ in range(d)]; x = np.array([inside(t, *b) for b in bs]); s = float(t.rng.normal(-1, .7))
    t.note(bounds=bs, state=x, log_scale=s, vector=vec)
    if vec:
        S = adapt.MyopicMvRwSampler(x.copy(), (np.array([b[0] for b in bs]), np.array([b[1] for b in bs])))
        A = t.rng.normal(size=(d, d)); S.prop_cov = A @ A.T + np.eye(d) * .3; C = S.prop_cov * np.exp(s)
    else: S = adapt.MyopicRwSampler(float(x[0]), bs[0]); C = np.array([[np.exp(2 * s)]])
    S.log_prop_scale.append(s)
    g = t.gen(); Y = []; y0 = np.array([free(a, *b)[0] for a, b in zip(x, bs)]); w0 = sum(free(a, *b)[1] for a, b in zip(x, bs))
    N = 1500
    for _ in range(N):
        p, wf, wb = S.propose(g)
        pv = np.atleast_1d(np.asarray(p, float))
        t.check(pv.shape == (d,), 'one value per coordinate')
        for a, (lb, ub) in zip(pv, bs): t.check((np.isinf(lb) or a > lb) and (np.isinf(ub) or a < ub), 'proposal stays inside the bounds', proposal=pv)
        fr = [free(a, *b) for a, b in zip(pv, bs)]
        t.close(wb, w0, 'log weight at the current value'); t.close(wf, sum(f[1] for f in fr), 'log weight at the proposal', rtol=1e-5, atol=1e-5, proposal=pv)
        Y.append([f[0] for f in fr])
    D = (np.array(Y) - y0) @ np.linalg.inv(np.linalg.cholesky(C)).T
    t.check(np.all(np.abs(D.mean(0)) < 5.5 / np.sqrt(N)), 'steps are centred at the current coordinates', got=D.mean(0))
    V = D.T @ D / N
    t.check(np.all(np.abs(V - np.eye(d)) < 5.5 * np.sqrt((1 + np.eye(d)) / N)), 'steps have the stated covariance', got=V)
    t.check(np.all(np.asarray(S.state) == x), 'the state is kept')


@oracle('C22', iters=300)
def adaptation(t):
    """sequential moments and the adaptation schedule over a whole history"""
    from ctbayes.misc import adapt
    d = int(t.rng.integers(1, 4)); n = int(t.rng.integers(1, 8)); X = t.rng.normal(0, 2, (n + 1, d)) + t.real(3)
    m = X[:n].mean(0); c = np.cov(X[:n].T).reshape(d, d) if n > 1 else np.zeros((d, d))
    t.note(X=X, n=n)
    a, b = adapt.seq_update_normal(X[n].copy(), n, m.copy(), c.copy())
    t.close(a, X.mean(0), 'sequential mean'); t.close(b, np.cov(X.T).reshape(d, d), 'sequential covariance', atol=1e-8)
    kind = ('scalar', 'vector', 'regime')[t.i % 3]
    air = int(t.rng.integers(1, 3)); opt, decay = float(t.rng.uniform(.1, .5)), float(t.rng.uniform(.3, 1))
    if kind == 'scalar': S = adapt.MyopicRwSampler(1.0, (0, np.inf), opt, decay, air)
    elif kind == 'vector': S = adapt.MyopicMvRwSampler(np.ones(d), (np.zeros(d), np.full(d, np.inf)), opt, decay, air)
    else: S = adapt.MyopicMjpSampler('path', opt, decay, air)
    t.note(kind=kind, opt=opt, decay=decay, air=air)
    probs = [opt]; periods = [0, 1]; scale = [S.log_prop_scale[-1]]; mean, cov, prop = np.zeros(d), np.eye(d), np.eye(d)
    for k in range(1, int(t.rng.integers(8, 25))):
        p = float(t.rng.uniform()); x = (np.exp(t.rng.normal(size=d)) if kind == 'vector' else float(t.rng.gamma(2)) if kind == 'scalar' else object())
        S.adapt(x, p); probs.append(p)
        t.check(S.state is x, 'stores the new state', step=k); t.check(len(S.emp_prob) == k + 1 and S.emp_prob[-1] == p, 'stores the success rate', step=k)
        if kind == 'vector':
            y = np.log(x); dev = y - mean; nn = k + 1; mean = mean + dev / (nn + 1); cov = cov + (np.outer(dev, dev) * nn / (nn + 1) - cov) / nn
            t.close(S.adapt_mean, mean, 'running mean', step=k); t.close(S.adapt_cov, cov, 'running covariance', step=k)
        if len(probs) == periods[-1] + 1:
            o = p if kind == 'regime' else np.mean(probs[periods[-2]:])
            scale.append(scale[-1] + len(periods) ** -decay * (o - opt)); periods.append(periods[-1] + len(periods) ** air); prop = cov
        t.close(S.log_prop_scale[-1], scale[-1], 'scale follows its recursion', step=k); t.check(len(S.log_prop_scale) == len(scale), 'scale changes at period ends only', step=k)
        t.check(list(S.adapt_periods) == periods, 'schedule', step=k, got=list(S.adapt_periods), expected=periods)
        if kind == 'vector': t.close(S.prop_cov, prop, 'proposal covariance is refreshed at period ends only', step=k)


@oracle('C22', iters=40, min_iters=12)
def regime_cuts(t):
    """regime proposals report their cuts and keep the path at them"""
    from ctbayes.misc import adapt
    from ctbayes.mjplib import skeleton as mj
    k = int(t.rng.integers(2, 4)); lam = t.rng.gamma(1, 1, (k, k)) + .1; np.fill_diagonal(lam, 0); np.fill_diagonal(lam, -lam.sum(1))
    T = t.pos(2); y = mj.sample_forwards(T, t.rng.integers(k), lam, t.gen())
    n = int(t.rng.integers(2, 9)); ts = np.append(np.append(0, np.sort(t.rng.uniform(0, T, n - 2))), T)
    t.note(path=tuple(map(repr, y)), times=ts, lam=lam)
    S = adapt.MyopicMjpSampler(y); s = float(t.rng.normal()); S.log_prop_scale.append(s); g = t.gen(); N = 300; cnt = 0
    for _ in range(N):
        p, c = S.propose(lam, ts.copy(), g); c = np.asarray(c)
        t.check(np.all(np.diff(c) > 0) and np.all(np.isin(c, ts[1:-1])), 'cuts are interior times in order', cuts=c)
        cnt += len(c)
        t.close(p.fin_t, T, 'proposal keeps the horizon')
        if len(c): t.check(np.all(p(c) == y(c)), 'proposal agrees with the path at the cuts', cuts=c, proposal=repr(p))
        t.check(S.state is y, 'state is kept')
    if n > 2:
        q = 1 / (1 + np.exp(s)); m_ = N * (n - 2); t.check(abs(cnt / m_ - q) < 5.5 * np.sqrt(q * (1 - q) / m_), 'cuts are kept with the current probability', observed=cnt / m_, expected=q)
