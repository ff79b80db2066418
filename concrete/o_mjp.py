"""C01-C06: regime paths, generators, Poisson points."""
import numpy as np
from scipy.linalg import expm
from concrete.lib import oracle
from ctbayes.mjplib import skeleton as mj, inference as inf


def generator(t, d, lo=.3, hi=3., wide=False):
    g = t.rng.uniform(lo, hi, (d, d)) * t.rng.choice([.3, 1, 2]) if not wide else t.rng.lognormal(0, 3, (d, d))
    np.fill_diagonal(g, 0); np.fill_diagonal(g, -g.sum(1))
    return g


def regime_path(t, d, T=None, most=8):
    T = t.pos() if T is None else T
    n = int(t.rng.integers(1, most)); x = [int(t.rng.integers(d))]
    for _ in range(n - 1): x.append(int(t.rng.choice([i for i in range(d) if i != x[-1]])))
    return mj.Skeleton(np.append(0., np.sort(t.rng.uniform(0, T, n - 1))), np.array(x), T)


def cuts(t, sk):
    k = int(t.rng.integers(0, 6))
    s = np.sort(t.rng.uniform(0, sk.fin_t, k))
    if t.rng.integers(3) == 0 and len(sk.t) > 1: s = np.sort(np.append(s, t.rng.choice(sk.t[1:])))
    return np.unique(s)


def value(sk, s): return sk.xt[np.sum(sk.t <= s) - 1]


def valid(t, sk, what, T=None):
    t.check(sk.t[0] == 0 and len(sk.t) == len(sk.xt), what + ' starts at time zero with a state per jump', path=sk)
    t.check(np.diff(sk.t) > 0, what + ' has increasing jump times', path=sk)
    t.check(sk.t < sk.fin_t, what + ' jumps before its horizon', path=sk)
    t.check(np.diff(sk.xt) != 0, what + ' never repeats a state', path=sk)
    if T is not None: t.close(sk.fin_t, T, what + ' has the requested horizon')


@oracle('C01', iters=600)
def cut_and_paste(t):
    """pieces and their paste against the path evaluated pointwise"""
    d = int(t.rng.integers(2, 5)); sk = regime_path(t, d); s = cuts(t, sk)
    s = s[(s > 0) & (s < sk.fin_t)]
    t.note(path=sk, cuts=s)
    ps = mj.partition_skeleton(sk, s.copy())
    grid = np.concatenate([[0], s, [sk.fin_t]])
    full = [p for p in ps if p.fin_t > 0]
    t.check(len(full) == len(s) + 1, 'one piece per gap', pieces=ps)
    for p, a, b in zip(full, grid[:-1], grid[1:]):
        t.close(p.fin_t, b - a, 'duration of a piece is the gap', rtol=1e-9, atol=1e-12)
        t.check(p.t[0] == 0, 'a piece starts at local time zero', piece=p)
        t.check(len(p.t) == len(p.xt), 'a state per time', piece=p)
        m = (sk.t > a) & (sk.t < b)
        t.close(p.t, np.append(0, sk.t[m] - a), 'jump times of a piece', piece=p)
        t.check(np.array_equal(p.xt, np.append(value(sk, a), sk.xt[m])), 'states of a piece are those of the path', piece=p)
    for got, what in ((mj.paste_partition(ps), 'pasting the pieces'), (mj.paste_partition(full), 'pasting the pieces of positive length')):
        t.close(got.fin_t, sk.fin_t, what + ' restores the horizon')
        t.check(len(got.t) == len(sk.t), what + ' restores the jumps', got=got)
        t.close(got.t, sk.t, what + ' restores the times'); t.check(np.array_equal(got.xt, sk.xt), what + ' restores the states', got=got)
    s2 = cuts(t, sk); s2 = s2[(s2 > 0) & (s2 < sk.fin_t)]
    r, w = mj.repartition_skeleton(ps, s2), mj.partition_skeleton(sk, s2)
    # cut times equal to a jump may fall on either side after rounding
    if not np.any(np.isclose(np.subtract.outer(s2, sk.t), 0)):
        t.check(len(r) == len(w), 'cutting again gives the pieces of the path', got=r)
        for p, q in zip(r, w):
            t.close(p.t, q.t, 'cutting again: times'); t.check(np.array_equal(p.xt, q.xt), 'cutting again: states'); t.close(p.fin_t, q.fin_t, 'cutting again: durations', atol=1e-9)


@oracle('C01', iters=400)
def paste_any(t):
    """pasting unrelated pieces follows each piece in turn"""
    d = int(t.rng.integers(2, 4)); k = int(t.rng.integers(1, 6))
    ps = [regime_path(t, d, most=4) for _ in range(k)]
    t.note(pieces=ps)
    r = mj.paste_partition(list(ps))
    b = np.append(0, np.cumsum([p.fin_t for p in ps]))
    t.close(r.fin_t, b[-1], 'total duration')
    valid(t, r, 'pasted path')
    for p, a in zip(ps, b):
        s = t.rng.uniform(0, p.fin_t, 6); s = s[np.min(np.abs(np.subtract.outer(s, p.t)), 1) > 1e-6]
        t.check([value(r, a + z) == value(p, z) for z in s], 'follows the piece', piece=p, at=s)
    sk = regime_path(t, d); g = t.gen()
    pieces, br = mj.sample_partition(sk, t.pos(), g)
    t.note(path=sk, breaks=br)
    back = mj.paste_partition(pieces)
    t.close(back.fin_t, sk.fin_t, 'horizon after a random cut')
    t.check(len(back.t) == len(sk.t) and np.allclose(back.t, sk.t) and np.array_equal(back.xt, sk.xt), 'a randomly cut path is restored', got=back)
    t.check(np.all(np.diff(br) > 0) and np.all((br > 0) & (br < sk.fin_t)), 'random cuts increase inside the horizon')
    t.close(np.cumsum([p.fin_t for p in pieces if p.fin_t > 0])[:-1], br, 'pieces end at the cuts')


@oracle('C02', iters=60, min_iters=12)
def simulated_paths(t):
    """validity, endpoints and one-point laws of simulated paths"""
    d = int(t.rng.integers(2, 4)); g = generator(t, d); T = float(t.rng.uniform(.2, 2)); om = t.gen()
    i, j = int(t.rng.integers(d)), int(t.rng.integers(d))
    t.note(generator=g, fin_t=T, init_x=i, fin_x=j)
    N = 1500
    s = T * t.rng.uniform(.2, .8)
    P = lambda u: expm(u * g)
    st = np.linalg.svd(g.T)[2][-1]; st = st / st.sum()

    def law(paths, probs, what):
        xs = np.array([value(p, s) for p in paths])
        for k in range(d): t.mean_is(xs == k, probs[k], np.sqrt(max(probs[k] * (1 - probs[k]), 1e-4)), what, state=k, time=s)
    ps = [mj.sample_forwards(T, i, g, om) for _ in range(N)]
    for p in ps: valid(t, p, 'forward path', T)
    t.check([p.xt[0] == i for p in ps], 'forward path starts in the requested state')
    law(ps, P(s)[i], 'law of the forward path')
    q = -g[i, i]
    t.mean_is([len(p.t) == 1 or p.t[1] > s for p in ps], np.exp(-q * s), .5, 'first sojourn is exponential with the total exit rate')
    left = [p.xt[1] for p in ps if len(p.t) > 1]
    if len(left) > 100:
        for k in range(d):
            if k != i: t.mean_is(np.array(left) == k, g[i, k] / q, .5, 'target in proportion to the exit rates', state=k)
    ps = [mj.sample_forwards(T, None, g, om) for _ in range(400)]
    for p in ps: valid(t, p, 'forward path from the stationary law', T)
    law(ps, st, 'stationary law of the forward path')
    ps = [mj.sample_bridge(T, i, j, g, om) for _ in range(N)]
    for p in ps: valid(t, p, 'bridge', T)
    t.check([p.xt[0] == i and p.xt[-1] == j for p in ps], 'bridge meets both endpoints')
    law(ps, P(s)[i] * P(T - s)[:, j] / P(T)[i, j], 'law of the bridge')
    # mean number of jumps of the bridge
    h = T / 200; u = (np.arange(200) + .5) * h; off = g - np.diag(np.diag(g))
    m = sum((P(w)[i] @ off @ P(T - w)[:, j]) for w in u) * h / P(T)[i, j]
    nj = np.array([len(p.t) - 1 for p in ps])
    t.mean_is(nj, m, max(nj.std(), .2), 'mean number of jumps of the bridge', sig=7)
    ps = [mj.sample_backwards(T, j, g, om) for _ in range(800)]
    for p in ps: valid(t, p, 'backward path', T)
    t.check([p.xt[-1] == j for p in ps], 'backward path ends in the requested state')
    f = P(T)[:, j] / P(T)[:, j].sum()
    law(ps, sum(f[a] * P(s)[a] * P(T - s)[:, j] / P(T)[a, j] for a in range(d)), 'law of the backward path')


@oracle('C02', iters=300)
def mutated_pieces(t):
    """re-simulated pieces keep durations and the states at interior cuts"""
    d = int(t.rng.integers(2, 4)); g = generator(t, d); sk = regime_path(t, d); s = np.sort(t.rng.uniform(0, sk.fin_t, int(t.rng.integers(0, 5))))
    t.note(generator=g, path=sk, cuts=s)
    ps = [p for p in mj.partition_skeleton(sk, s) if p.fin_t > 0]
    qs = mj.mutate_partition(list(ps), g, t.gen())
    t.check(len(ps) == len(qs), 'one new piece per piece', got=qs)
    for p, q in zip(ps, qs): t.close(p.fin_t, q.fin_t, 'durations are kept'); valid(t, q, 'new piece')
    if len(ps) > 1:
        for k, c in enumerate(s):
            t.check(qs[k].xt[-1] == ps[k].xt[-1] and qs[k + 1].xt[0] == ps[k + 1].xt[0], 'states at interior cuts are kept', old=ps, new=qs, cut=k)


@oracle('C03', iters=600)
def reading(t):
    """values at times against the last jump"""
    d = int(t.rng.integers(2, 5)); sk = regime_path(t, d)
    ss = np.concatenate([t.rng.uniform(0, sk.fin_t, 4), sk.t, [sk.fin_t, 0], sk.t[1:] - 1e-9, sk.t + 1e-12])
    ss = ss[(ss >= 0) & (ss <= sk.fin_t)]
    t.note(path=sk, at=ss)
    want = np.array([value(sk, s) for s in ss])
    t.check(np.array_equal(sk(ss), want), 'state entered at the last jump', got=sk(ss), expected=want)
    t.check(int(sk(ss[0])) == want[0], 'single time')
    t.raises(ValueError, lambda: sk(sk.fin_t + abs(t.real()) + 1e-3), 'past the horizon')
    t.raises(ValueError, lambda: sk(np.append(ss, sk.fin_t * 1.01)), 'some time past the horizon')
    dur = np.diff(np.append(sk.t, sk.fin_t))
    q = t.rng.permutation(d)[:int(t.rng.integers(1, d + 1))]
    t.note(states=q)
    t.close(mj.est_stat(sk, q), [dur[sk.xt == k].sum() / sk.fin_t for k in q], 'occupation fractions')


def beliefs(t, d, big=False):
    a, b = t.rng.gamma(3, size=(d, d)) + (1 if big else .1), t.rng.gamma(2, size=(d, d)) + .1
    np.fill_diagonal(a, np.nan); np.fill_diagonal(b, np.nan)
    return a, b


@oracle('C04', iters=500)
def rates(t):
    """counts, holding times and log densities against loops over the path"""
    d = int(t.rng.integers(2, 6)); sk = regime_path(t, d, most=12); a, b = beliefs(t, d); g = generator(t, d)
    t.note(path=sk, alp=a, bet=b, generator=g)
    dur = np.diff(np.append(sk.t, sk.fin_t))
    n, h = np.zeros((d, d)), np.zeros(d)
    for k in range(len(sk.t)): h[sk.xt[k]] += dur[k]
    for k in range(len(sk.t) - 1): n[sk.xt[k], sk.xt[k + 1]] += 1
    A, B = inf.update(sk, a.copy(), b.copy()); off = ~np.eye(d, dtype=bool)
    t.close(A[off], (a + n)[off], 'transition counts'); t.close(B[off], (b + h[:, None])[off], 'holding times')
    ll = sum(np.log(g[x, y]) for x, y in zip(sk.xt[:-1], sk.xt[1:])) + sum(u * g[x, x] for u, x in zip(dur, sk.xt))
    t.close(inf.eval_loglik(sk, g.copy()), ll, 'log-likelihood')
    g, g2 = generator(t, d, wide=True), generator(t, d, wide=True)
    lp = lambda G: np.sum(((a - 1) * np.log(np.abs(G)) - b * G)[off])
    t.close(inf.eval_logprior(g, a, b) - inf.eval_logprior(g2, a, b), lp(g) - lp(g2), 'log prior', rtol=1e-6, atol=1e-8)


@oracle('C05', iters=300)
def generators(t):
    """rows, entries, stationary law, matrix exponential, laws of drawn rates"""
    d = int(t.rng.integers(2, 6)); a, b = beliefs(t, d, True); off = ~np.eye(d, dtype=bool)
    t.note(alp=a, bet=b)
    def proper(g, what):
        t.check(g.shape == (d, d), what + ' is square'); t.check(g[off] >= 0, what + ' has nonnegative rates', got=g); t.close(g.sum(1), np.zeros(d), what + ' has rows summing to zero', atol=1e-8, got=g)
        return g
    t.close(proper(inf.get_ev(a.copy(), b.copy()), 'mean')[off], (a / b)[off], 'mean rates')
    t.close(proper(inf.get_mode(a.copy(), b.copy()), 'mode')[off], ((a - 1) / b)[off], 'mode rates')
    om = t.gen()
    proper(mj.sample_trial_generator(d, om), 'trial generator')
    gs = np.array([proper(inf.sample_param(a.copy(), b.copy(), om), 'sampled generator') for _ in range(60)])
    # gamma(shape)/rate: standardised sums over all entries and draws
    z = (gs[:, off] - (a / b)[off]) / (np.sqrt(a) / b)[off]
    t.mean_is(z.ravel(), 0, 1, 'drawn rates have the gamma mean', sig=7)
    g = generator(t, d); T = t.pos()
    t.note(generator=g, fin_t=T)
    p = mj.get_stat(g.copy())
    t.close(p.sum(), 1, 'stationary probabilities sum to one'); t.close(p @ g, np.zeros(d), 'stationary law is left unchanged', atol=1e-8)
    t.close(mj.get_trans(T, g.copy()), expm(T * g), 'transition probabilities', rtol=1e-6)


@oracle('C06', iters=40, min_iters=10)
def poisson_points(t):
    """points in the box, order, counts and laws, at once and in batches"""
    d = int(t.rng.integers(1, 4)); b = t.rng.lognormal(0, .6, d); lam = float(t.rng.uniform(.5, 12)) / np.prod(b); size = int(t.rng.integers(1, 8)); om = t.gen()
    t.note(intensity=lam, bounds=b, batch_size=size)
    mean = lam * np.prod(b)

    def points(what, draw):
        ns, first, last, mids, rest, cross = [], [], [], [], [], []
        for _ in range(500):
            p = draw()
            n = len(p); ns.append(n)
            if not n: continue
            t.check(p.shape == (n, d), what + ': one row per point', got=p)
            t.check((p >= 0) & (p <= b * (1 + 1e-12)), what + ': points in the box', got=p)
            t.check(np.diff(p[:, 0]) >= 0, what + ': sorted by the first coordinate', got=p)
            first.append(1 - (1 - p[0, 0] / b[0]) ** n); last.append((p[-1, 0] / b[0]) ** n)
            mids += list(p[t.rng.integers(n)] / b)[:1]
            rest += list(np.concatenate([(p / b)[:, 1:].ravel()]))
            q = p[t.rng.permutation(n)[:1]] / b - .5
            cross += [float(12 * q[0, 0] * z) for z in q[0, 1:]]
        t.mean_is(ns, mean, np.sqrt(mean), what + ': mean number of points')
        t.mean_is((np.array(ns) - mean) ** 2, mean, np.sqrt(mean + 2 * mean ** 2), what + ': variance of the number of points', sig=9)
        if len(first) > 50:
            t.uniform_is(first, what + ': law of the first point'); t.uniform_is(last, what + ': law of the last point'); t.uniform_is(mids, what + ': law of a random point')
        if len(cross) > 50: t.mean_is(cross, 0, 1, what + ': coordinates of a point are independent', sig=7 * max(1, d - 1) ** .5)
        if len(rest) > 50: t.uniform_is(rest, what + ': law of the other coordinates')

    points('at once', lambda: mj.sample_ppp(lam, tuple(b), om))

    def batches():
        bs = list(mj.sample_batch_ppp(lam, tuple(b), size, om))
        for x in bs[:-1]: t.check(len(x) == size, 'batches hold the requested number', got=bs)
        if bs: t.check(1 <= len(bs[-1]) <= size, 'last batch is not larger', got=bs)
        return np.vstack(bs) if bs else np.zeros((0, d))
    points('in batches', batches)
    # gaps of the ordered points given their number are exchangeable: first gap and later gaps have the same law
    gaps = []
    for _ in range(300):
        p = batches()
        if len(p) >= 2:
            k = int(t.rng.integers(len(p) - 1)); n = len(p)
            gaps.append(1 - (1 - (p[k + 1, 0] - p[k, 0]) / b[0]) ** n)
    if len(gaps) > 50: t.uniform_is(gaps, 'in batches: law of the gaps')
