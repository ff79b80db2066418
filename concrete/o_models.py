"""C16-C19, C25: the library's models."""
import numpy as np
from concrete.lib import oracle, Violation
from concrete import models as m
from ctbayes.ea3lib import seed as sde_seed


@oracle('C16', iters=600)
def disc_bounds(t):
    """bounds on the discrepancy over an interval"""
    kind, n = m.pick(t)
    if kind == 'ito':
        th = m.thi_ito(t, n); mod = m.ito(n); row = th
        f = lambda x: mod.eval_disc(th, x)
        call = lambda a, b: mod.eval_bounds_disc(th, a, b)
    else:
        k = int(t.rng.integers(1, 4)); tha = m.thi_swi(t, n, k); y = int(t.rng.integers(k)); row = tha[y]; mod = m.swi(n)
        th = tha
        f = lambda x: mod.eval_disc(tha, y, x)
        call = lambda a, b: mod.eval_bounds_disc(tha, y, a, b)
        t.note(init_y=y)
    if n == 'cir':
        a = float(t.rng.choice([t.rng.lognormal(0, 1), t.rng.uniform(.01, 1)])); b = a + float(t.rng.choice([t.rng.uniform(.01, .5), t.rng.uniform(.5, 5)]))
    else:
        a = t.real(); b = a + t.pos() * float(t.rng.choice([.1, 1, 3]))
    t.note(model=n, kind=kind, thi=th, le_x=a, ue_x=b)
    inf, lo, hi = [float(np.asarray(x)) for x in call(a, b)]
    xs = np.unique(np.concatenate([np.linspace(a, b, 201), [a, b], [0.0] if a <= 0 <= b else []]))
    want = m.disc(kind, n, row, xs)
    got = np.array([float(f(x)) for x in xs[::40]])
    t.close(got, m.disc(kind, n, row, xs[::40]), 'discrepancy is half of squared scaled drift plus derivative', rtol=1e-7, atol=1e-8)
    tol = 1e-8 * (1 + np.abs(want))
    t.check(lo <= want + tol, 'lower bound holds on the interval', lower=lo, least=want.min())
    t.check(want <= hi + tol, 'upper bound holds on the interval', upper=hi, largest=want.max())
    far = np.concatenate([xs, np.geomspace(1e-3, 50, 200), -np.geomspace(1e-3, 50, 200) if n != 'cir' else [1.0], [1e-9]])
    all_ = m.disc(kind, n, row, far)
    if not np.isnan(inf): t.check(inf <= all_ + 1e-8 * (1 + np.abs(all_)), 'global lower bound', lower=inf, least=all_.min())
    # the state bounds are attained up to what the interval allows
    s = 1e-6 * (1 + abs(lo))
    t.check(lo >= min(want) - 1e-3 * (1 + abs(lo)) - (b - a) * 1e-2 * np.max(np.abs(np.diff(want))) if len(want) > 1 else True, 'lower bound is attained', lower=lo, least=want.min())


@oracle('C17', iters=600)
def drift_parts(t):
    """drift, antiderivative, derivative, transforms against the model definition"""
    kind, n = m.pick(t)
    x = m.obs(t, kind, 'cir' if n == 'cir' else n, 4)
    if kind == 'ito':
        th = m.thi_ito(t, n); mod = m.ito(n)
        A = (th,)
        row = th
        v = m.obs(t, kind, n, 4)
        t.note(model=n, kind=kind, thi=th, x=x, v=v)
        t.close(mod.reduce(th, v), m.reduce(kind, n, th, v), 'reduction')
        t.close(mod.dereduce(th, mod.reduce(th, v)), v, 'undoing the reduction')
        t.close(mod.dv_reduce(th, v), m.dv_reduce(kind, n, th, v), 'derivative of the reduction')
        t.close(mod.dv_reduce(th, v[0]), m.dv_reduce(kind, n, th, v[0]), 'derivative of the reduction at one value')
        t.close(mod.eval_drift(th, x), m.drift(kind, n, th, x), 'drift')
        t.close(mod.dx_eval_drift(th, x), m.ddrift(kind, n, th, x), 'derivative of the drift')
        d = mod.sx_eval_drift(th, x) - mod.sx_eval_drift(th, x[::-1])
        t.close(d, m.sdrift(kind, n, th, x) - m.sdrift(kind, n, th, x[::-1]), 'antiderivative of the drift', atol=1e-8)
        t.close(mod.eval_disc(th, x), m.disc(kind, n, th, x), 'discrepancy')
    else:
        k = int(t.rng.integers(1, 4)); th = m.thi_swi(t, n, k); mod = m.swi(n); y = t.rng.integers(0, k, 4)
        v = m.obs(t, kind, n, 4)
        t.note(model=n, kind=kind, thi=th, y=y, x=x, v=v)
        t.close(mod.dereduce(mod.reduce(v)), v, 'undoing the reduction'); t.close(mod.reduce(v), v, 'reduction')
        t.close(mod.dv_reduce(v), np.ones(4), 'derivative of the reduction')
        R = [th[i] for i in y]
        for f, g, w in ((mod.eval_drift, m.drift, 'drift'), (mod.dx_eval_drift, m.ddrift, 'derivative of the drift'), (mod.eval_disc, m.disc, 'discrepancy')):
            t.close(f(th, y, x), [g(kind, n, r, xi) for r, xi in zip(R, x)], w)
            t.close(f(th, int(y[0]), x[0]), g(kind, n, R[0], x[0]), w + ' at one value')
            t.close(f(th, int(y[0]), x) + 0 * x, g(kind, n, R[0], x), w + ' in one regime')
        t.close(mod.eval_vol(th, y), [m.vol(kind, n, r) for r in R], 'volatility')
        t.close(mod.sx_eval_drift(th, y, x) - mod.sx_eval_drift(th, y, x[::-1]), [m.sdrift(kind, n, r, p) - m.sdrift(kind, n, r, q) for r, p, q in zip(R, x, x[::-1])], 'antiderivative', atol=1e-8)


class Stop(Exception): pass


@oracle('C18', iters=400)
def intensity(t):
    """the intensity handed to the dual coin against the change of discrepancy inside the layer"""
    kind, n = m.pick(t)
    T = t.pos(); v0, v1 = m.obs(t, kind, n, 2)
    e = np.sort([-abs(t.real()), abs(t.real())]); 
    if t.rng.integers(2): e = e[::-1]
    seed = sde_seed.SeedSkeleton(np.array([0., 1.]), np.zeros(2), e[0], e[1], None, None)
    got = []
    mods = __import__('ctbayes.%s.mcmc' % kind, fromlist=['x'])

    def fake(seed_, intensity, nn, dn, en, np_, dp, ep, *a, **k):
        got.append((float(intensity), dn, en, dp, ep)); raise Stop()
    ch = int(t.rng.integers(3))
    def move(th):
        q = th.copy(); f = np.exp(t.rng.normal(0, .5, th.shape))
        if ch == 0: f[..., 0] = 1
        if ch == 1: f[..., 1] = 1
        return q * f
    ctrl = mods.Controls()
    old = sde_seed.flip_dual_coin
    sde_seed.flip_dual_coin = fake
    try:
        if kind == 'ito':
            th = m.thi_ito(t, n); th1 = move(th); mod = m.ito(n)
            md = mods.Model(np.array([0, T]), np.array([v0, v1]), None, None, None, mod.gen_normops, None, mod.eval_disc, mod.eval_bounds_disc, mod.eval_bounds_grad)
            t.note(model=n, kind=kind, thi_nil=th, thi_prime=th1, T=T, v0=v0, v1=v1, edges=e)
            try: mods.flip_param_coin(th, th1, seed, md, ctrl, True, t.gen())
            except Stop: pass
        else:
            k = int(t.rng.integers(1, 4)); th = m.thi_swi(t, n, k); th1 = move(th); y = int(t.rng.integers(k)); mod = m.swi(n)
            md = mods.Model(None, None, None, None, None, None, mod.gen_normops, None, mod.eval_disc, mod.eval_bounds_disc, mod.eval_bounds_grad)
            t.note(model=n, kind=kind, thi_nil=th, thi_prime=th1, T=T, v0=v0, v1=v1, y=y, edges=e)
            try: mods.flip_param_coin(th, th1, T, y, v0, v1, seed, md, ctrl, True, t.gen())
            except Stop: pass
    finally:
        sde_seed.flip_dual_coin = old
    if not got: return     # the coin is flipped in some other way: nothing to compare
    lam, dn, en, dp, ep = got[0]
    S, Z = np.meshgrid(np.linspace(0, 1, 15), np.linspace(min(e), max(e), 15))
    S, Z = S.ravel(), Z.ravel()
    if n == 'cir':
        ok = (dn(S, Z)[1] > 0) & (dp(S, Z)[1] > 0)
        S, Z = S[ok], Z[ok]
    gap = np.abs(en(dn(S, Z)[1]) - ep(dp(S, Z)[1]))
    i = int(np.argmax(gap)) if len(gap) else 0
    if len(gap) and gap[i] > lam * (1 + 1e-9) + 1e-9:
        raise Violation('the intensity is below the change of discrepancy', dict(t.inputs, intensity=lam, gap=gap[i], s=S[i], z=Z[i]), key='cir_bounds_grad' if n == 'cir' else None)


@oracle('C18', iters=60)
def dual_coin_frequency(t):
    """frequency of success of the dual coin against a fine discretisation of its integral"""
    # deterministic paths: the layer is degenerate around a constant difference of discrepancies
    T = float(t.rng.uniform(.3, 1.5)); d = float(t.rng.uniform(.3, 1.5)) * (1 if t.rng.integers(2) else -1); up = bool(t.rng.integers(2))
    lam = abs(d) * float(t.rng.choice([1.0, 1.7]))
    N = 1500
    t.note(T=T, difference=d, upside=up, intensity=lam)
    norm = lambda tt, x: (np.asarray(tt) / T, None if x is None else np.asarray(x) / np.sqrt(T))
    den = lambda s, z: (np.asarray(s) * T, None if z is None else np.asarray(z) * np.sqrt(T))
    f0 = lambda x: 0 * x; f1 = lambda x: d + 0 * x
    g = t.gen(); ok = 0
    for _ in range(N):
        sd = sde_seed.sample_raw_seed((-np.inf, np.inf), norm, den, g)
        r, _ = sde_seed.flip_dual_coin(sd, lam, norm, den, f0, norm, den, f1, up, g, int(t.rng.integers(1, 4)))
        ok += bool(r)
    p = np.exp(-T * max(d if up else -d, 0))
    if p == 1: t.check(ok == N, 'success when there is no difference in the asked direction', successes=ok, trials=N)
    else: t.check(abs(ok - N * p) <= 5.5 * np.sqrt(N * p * (1 - p)) + 3, 'frequency of success', successes=ok, trials=N, probability=p)


@oracle('C19', iters=400)
def standardise(t):
    """standardising and undoing it"""
    kind, n = m.pick(t)
    k = int(t.rng.integers(2, 6)); tt = np.cumsum(np.append(t.real(), t.rng.exponential(1, k - 1) + .05))
    v = m.obs(t, kind, n, k)
    if kind == 'ito':
        th = m.thi_ito(t, n); mod = m.ito(n); ops = mod.gen_normops(th, tt.copy(), v.copy()); vols = np.ones(k); x = m.reduce(kind, n, th, v)
        t.note(model=n, kind=kind, thi=th, t=tt, v=v)
    else:
        nr = int(t.rng.integers(1, 4)); th = m.thi_swi(t, n, nr); y = t.rng.integers(0, nr, k); mod = m.swi(n)
        ops = mod.gen_normops(th, tt.copy(), y, v.copy()); vols = [m.vol(kind, n, th[i]) for i in y]; x = v
        t.note(model=n, kind=kind, thi=th, t=tt, y=y, v=v)
    t.check(len(ops) == k - 1, 'one pair of maps per consecutive pair of observations', number=len(ops))
    for i, (nm, dn) in enumerate(ops):
        T = tt[i + 1] - tt[i]
        u = np.sort(t.rng.uniform(0, T, 5)); w = t.rng.normal(0, 2, 5)
        s, z = nm(u, w)
        t.close(s, u / T, 'standardised times', segment=i)
        t.close(z, (w - x[i] - u / T * (x[i + 1] - x[i])) / (np.sqrt(T) * vols[i]), 'standardised values', segment=i)
        u2, w2 = dn(s, z)
        t.close(u2, u, 'times are restored', segment=i); t.close(w2, w, 'values are restored', segment=i)
        t.close(dn(np.array([0., 1.]), np.zeros(2))[1], x[i:i + 2], 'ends are the observations', segment=i)
        t.close(nm(np.array([0., T]), x[i:i + 2])[1], [0, 0], 'observations are standardised to zero', atol=1e-8, segment=i)
        t.check(nm(u, None)[1] is None and dn(s, None)[1] is None, 'no values without values'); t.close(nm(u, None)[0], u / T, 'times alone'); t.close(dn(s, None)[0], u, 'times alone restored')


@oracle('C25', iters=400)
def complete_loglik(t):
    """biased log-likelihood against its definition"""
    kind, n = m.pick(t)
    if kind == 'ito':
        k = int(t.rng.integers(2, 7)); tt = np.cumsum(np.append(0, t.rng.exponential(.7, k - 1) + .05)); v = m.obs(t, kind, n, k)
        th = m.thi_ito(t, n); mod = m.ito(n); t.note(model=n, thi=th, t=tt, v=v)
        x = m.reduce(kind, n, th, v); dt = np.diff(tt)
        want = np.sum(-np.log(2 * np.pi * dt) / 2 - np.diff(x) ** 2 / (2 * dt) + np.log(np.abs(m.dv_reduce(kind, n, th, v[1:])))) + m.sdrift(kind, n, th, x[-1]) - m.sdrift(kind, n, th, x[0])
        t.close(mod.eval_biased_log_lik(th, tt.copy(), v.copy()), want, 'biased log-likelihood', rtol=1e-7, atol=1e-7)
        return
    nr = int(t.rng.integers(2, 4)); th = m.thi_swi(t, n, nr); mod = m.swi(n)
    nobs = int(t.rng.integers(2, 6))
    # anchors: observations (regime unchanged) and regime changes between them
    tt, y, ob = [0.0], [int(t.rng.integers(nr))], [0]
    for i in range(1, nobs):
        for _ in range(int(t.rng.choice([0, 0, 1, 2]))):
            tt.append(tt[-1] + t.rng.exponential(.4) + .02); y.append(int((y[-1] + 1 + t.rng.integers(nr - 1)) % nr))
        tt.append(tt[-1] + t.rng.exponential(.4) + .02); y.append(y[-1]); ob.append(len(tt) - 1)
    tt, y = np.array(tt), np.array(y); v = m.obs(t, kind, n, len(tt))
    t.note(model=n, thi=th, t=tt, y=y, v=v)
    dt = np.diff(tt); vs = np.array([m.vol(kind, n, th[i]) for i in y[:-1]]); sg = dt * vs ** 2
    p_del = np.array([(m.sdrift(kind, n, th[i], b) - m.sdrift(kind, n, th[i], a)) for i, a, b in zip(y, v, v[1:])]) / vs ** 2
    p_v = -np.log(2 * np.pi * sg) / 2 - np.diff(v) ** 2 / (2 * sg)
    so = np.array([sg[a:b].sum() for a, b in zip(ob, ob[1:])]); vo = v[ob]
    p_o = np.sum(-np.log(2 * np.pi * so) / 2 - np.diff(vo) ** 2 / (2 * so))
    a, b = mod.eval_biased_log_lik(th, tt.copy(), y.copy(), v.copy())
    t.close(a, np.sum(p_del + p_v), 'log-likelihood of the segments', rtol=1e-7, atol=1e-7)
    t.close(b, p_o - np.sum(p_v), 'correction to the observations', rtol=1e-7, atol=1e-7)
    tot = 0
    for r in range(nr):
        sel = y[:-1] == r
        a, b = mod.eval_biased_log_lik(th, tt.copy(), y.copy(), v.copy(), r)
        t.close(a, np.sum((p_del + p_v)[sel]), 'log-likelihood of the segments of one regime', rtol=1e-7, atol=1e-7, regime=r)
        t.close(b, p_o - np.sum(p_v[sel]), 'correction with one regime', rtol=1e-7, atol=1e-7, regime=r)
