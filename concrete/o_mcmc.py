"""C26: acceptance and bookkeeping of the posterior updates, with stand-ins for the model and for the coins."""
import inspect
import numpy as np
from unittest import mock
from joblib import Parallel
from concrete.lib import oracle, Skip
from ctbayes.ea3lib import seed as sd
from ctbayes.ito import mcmc as im
from ctbayes.switching import mcmc as sm, types


def stub(owner, name, f):
    """f in place of owner.name, called by position whichever way the caller passes the arguments"""
    orig = getattr(owner, name, None)
    if orig is None: raise Skip
    sig = inspect.signature(orig)

    def g(*a, **k):
        b = sig.bind(*a, **k); b.apply_defaults()
        return f(*b.arguments.values())
    return mock.patch.object(owner, name, g)


def mkseed(lab, k, lo=-1., hi=1.): return sd.SeedSkeleton(np.array([0., 1.]), np.array([0., lab]), hi, lo, float(k), None)
def lab(z): return float(z.z[1])
def hash01(*a): return float(abs(np.sin(np.dot(np.arange(1, len(a) + 1), np.asarray(a, float)) * 12.9898 + 3.1)))


class Walk:
    def __init__(self, value, lf, lb): self.value, self.lf, self.lb, self.adapted = value, lf, lb, []
    def propose(self, *a): return self.value, self.lf, self.lb
    def adapt(self, x, p): self.adapted.append((np.copy(x), p))


def barker(wp, wn): return 1 / (1 + np.exp(wn - wp))


def dual(t, seen, heads):
    """flips depend on the label of the seed; a flip refines (adds one half to) it"""
    def f(z, *a):
        seen.append((z,) + a)
        return heads(lab(z)), mkseed(lab(z) + .5, z.hit_z)
    return f


def joint(t, log, accept):
    def f(w1, w2, coins, q, ome, max_props=None):
        log.append((w1, w2)); next(coins)
        for up in (True, False): ok, z = coins.send(up)
        log.append(ok)
        return accept, False, z
    return f


def close(t, a, b, what): t.close(np.asarray(a, float), np.asarray(b, float), what)


@oracle('C26', iters=80)
def ito_parameters(t):
    """ito.update_params"""
    p, n = int(t.rng.integers(1, 4)), int(t.rng.integers(2, 6))
    th, tt, vt = t.rng.normal(size=p), np.sort(t.rng.uniform(size=n)) * 3, t.rng.normal(size=n)
    L = lambda x: float(np.sin(np.sum(x * np.arange(1, p + 1)))); P = lambda x: float(np.cos(np.sum(x)))
    grads = lambda a, b, T, v0, v1, lo, hi: np.array([.1 + hash01(T, v0, v1, j, *a, *b) for j in range(p)])
    mod = im.Model(tt, vt, None, P, None, lambda x, a, b: [(('n', tuple(x), a[k + 1] - a[k], b[k], b[k + 1]), ('d', tuple(x), a[k + 1] - a[k], b[k], b[k + 1])) for k in range(len(a) - 1)],
                   lambda x, a, b: L(x) if len(a) == n else np.nan, lambda x: ('disc', tuple(x)), None, grads)
    chains = [Walk(t.rng.normal(), t.rng.normal(), t.rng.normal()) for _ in range(p)]
    z = [mkseed(10. * (k + 1), k) for k in range(n - 1)]
    pre, acc, cut = bool(t.rng.integers(2)), bool(t.rng.integers(2)), 10 * n - 15
    ctrl = im.Controls(.2, .01, 1, 7, pre)
    t.note(parameters=th, times=tt, values=vt, precoin=pre, proposals=[(c.value, c.lf, c.lb) for c in chains])
    rej = {j: [] for j in range(p)}
    for _ in range(400 if pre else 3):
        log, seen = [], []
        for c in chains: c.adapted.clear()
        th0, z0 = th.copy(), list(z)
        with stub(sd, 'flip_dual_coin', dual(t, seen, lambda x: x < cut)), stub(im, 'sample_twocoin_joint', joint(t, log, acc)):
            x, zz = im.update_params(th, z, mod, ctrl, chains, t.gen())
        j = [i for i in range(p) if chains[i].adapted]
        t.check(len(j) == 1 and len(chains[j[0]].adapted) == 1, 'one sampler adapts'); j = j[0]
        c = chains[j]; pr = th.copy(); pr[j] = c.value
        wp, wn = L(pr) + P(pr) + c.lb, L(th) + P(th) + c.lf
        ok = acc and bool(log)
        if pre: rej[j].append(bool(log))
        t.check(bool(log) or pre, 'flips the two coins')
        if log: close(t, log[0][0] - log[0][1], 0 if pre else wp - wn, 'ratio of the weights')
        close(t, x, pr if ok else th, 'parameters after the update')
        close(t, c.adapted[0][0], c.value if ok else th[j], 'adapts to the new value'); close(t, c.adapted[0][1], float(ok), 'adapts to the outcome')
        close(t, [lab(a) for a in zz], [lab(a) + (1 if log else 0) for a in z], 'hidden path after two flips')
        t.check(np.all(th == th0) and len(z) == len(z0) and all(a is b for a, b in zip(z, z0)), 'arguments unchanged')
        if log: t.check(log[1] == all(lab(a) + .5 < cut for a in z), 'heads if every segment is heads')
        for s in seen:
            k = int(s[0].hit_z); T = tt[k + 1] - tt[k]
            t.check(s[1] >= abs(pr[j] - th[j]) * grads(th, pr, T, vt[k], vt[k + 1], 0, 0)[j] - 1e-9, 'intensity')
            for o, w in ((2, th), (5, pr)):
                for e in (0, 1):
                    close(t, s[o + e][1], w, 'parameters of the maps'); close(t, s[o + e][2:], [T, vt[k], vt[k + 1]], 'segment of the maps')
                close(t, s[o + 2][1], w, 'parameters of the discrepancy')
    for j, r in rej.items():
        if len(r) < 100: continue
        c = chains[j]; pr = th.copy(); pr[j] = c.value
        b = barker(L(pr) + P(pr) + c.lb, L(th) + P(th) + c.lf)
        t.mean_is(r, b, np.sqrt(b * (1 - b)), 'frequency of the pre-flip')


def swi(t, p, nr):
    """a switching model whose callables are recognisable functions of what they are given"""
    L = lambda x, h, r: (hash01(*np.ravel(x), *h[0], *h[1], *h[2], -1 if r is None else r), 0. if r is not None else hash01(1, *h[0]))
    P = lambda x: float(np.cos(np.sum(x)))
    op = lambda x, T, v0, v1, y: tuple(x[y]) + (T, v0, v1, y)
    return sm.Model(np.array([0., 2.]), np.array([0., 0.]), None, None, P, None,
                    lambda x, a, y, b: [(op(x, a[k + 1] - a[k], b[k], b[k + 1], y[k]), op(x, a[k + 1] - a[k], b[k], b[k + 1], y[k])) for k in range(len(a) - 1)],
                    lambda x, a, y, b, r=None: L(x, (a, y, b), r), lambda x, y: tuple(x[y]) + (y,), lambda x, y: tuple(x[y]) + (y,),
                    lambda a, b, T, v0, v1, lo, hi: np.array([.1 + hash01(T, v0, v1, j, *a, *b) for j in range(p)])), L, P


def path(t, nr, base, n=None):
    n = int(t.rng.integers(2, 8)) if n is None else n
    h = types.Anchorage(np.append(0., np.cumsum(t.rng.uniform(.1, 1, size=n - 1))), t.rng.integers(0, nr, size=n), t.rng.normal(size=n))
    return [mkseed(base + 10. * k, k) for k in range(n - 1)], h


@oracle('C26', iters=80)
def regime_parameters(t):
    """switching.update_params_section and update_params"""
    p, nr = int(t.rng.integers(1, 4)), int(t.rng.integers(1, 4))
    mod, L, P = swi(t, p, nr)
    th = t.rng.normal(size=(nr, p)); z, h = path(t, nr, 10.); n = len(h.t)
    pre, acc, cut = bool(t.rng.integers(2)), bool(t.rng.integers(2)), 10. * n - 15
    ctrl = sm.Controls(.2, .01, 1, 7, pre); s = int(t.rng.integers(nr))
    chains = [Walk(t.rng.normal(size=p), t.rng.normal(), t.rng.normal()) for _ in range(nr)]
    pr = th.copy(); pr[s] = chains[s].value
    t.note(parameters=th, regime=s, anchors=h, precoin=pre, proposal=chains[s].value)
    got = []
    wp, wn = L(pr, h, s)[0] + P(pr) + chains[s].lb, L(th, h, s)[0] + P(th) + chains[s].lf
    th0, h0 = th.copy(), [np.copy(x) for x in h]
    for _ in range(300 if pre else 2):
        log, seen = [], []
        with stub(sd, 'flip_dual_coin', dual(t, seen, lambda x: x < cut)), stub(sm, 'sample_twocoin_joint', joint(t, log, acc)):
            a, x, zz = sm.update_params_section(th, z, h, mod, ctrl, chains, s, t.gen())
        ok = acc and bool(log); got.append(bool(log))
        t.check(bool(log) or pre, 'flips the two coins'); t.check(bool(a) == ok, 'reports the outcome')
        if log: close(t, log[0][0] - log[0][1], 0 if pre else wp - wn, 'ratio of the weights')
        close(t, x, pr if ok else th, 'parameters after the update')
        mine = [k for k in range(n - 1) if h.yt[k] == s]
        close(t, [lab(q) for q in zz], [lab(q) + (1 if log and k in mine else 0) for k, q in enumerate(z)], 'hidden path after two flips')
        if log: t.check(log[1] == all(lab(z[k]) + .5 < cut for k in mine), 'heads if every segment of the regime is heads')
        t.check(np.all(th == th0) and all(np.all(a == b) for a, b in zip(h, h0)), 'arguments unchanged')
        for q in seen:
            k = int(q[0].hit_z); T = h.t[k + 1] - h.t[k]
            G = mod.eval_bounds_grad(th[s], pr[s], T, h.vt[k], h.vt[k + 1], 0, 0)
            t.check(q[1] >= np.sum(np.abs(pr[s] - th[s]) * G) - 1e-9, 'intensity')
            for o, w in ((2, th), (5, pr)):
                for e in (0, 1): close(t, q[o + e], tuple(w[s]) + (T, h.vt[k], h.vt[k + 1], s), 'segment of the maps')
                close(t, q[o + 2], tuple(w[s]) + (s,), 'parameters of the discrepancy')
    if pre:
        b = barker(wp, wn); t.mean_is(got, b, np.sqrt(b * (1 - b)), 'frequency of the pre-flip')
    accs = t.rng.integers(2, size=nr).astype(bool); rows = t.rng.normal(size=(nr, p))

    def section(th_, z_, h_, mod_, ctrl_, ch, i, ome):
        x = th_.copy(); x[i] = rows[i]
        return accs[i], x, [mkseed(100 * i + k, k) for k in range(n - 1)]
    with stub(sm, 'update_params_section', section):
        x, zz = sm.update_params(th, z, h, mod, ctrl, chains, t.gen(), Parallel(1))
    close(t, x, rows, 'row of the section of the regime')
    close(t, [lab(q) for q in zz], [100 * h.yt[k] + k for k in range(n - 1)], 'segments of the section of their regime')
    for i in range(nr):
        t.check(len(chains[i].adapted) == 1, 'one adaptation per regime')
        close(t, chains[i].adapted[0][0], rows[i], 'adapts to the new parameters'); close(t, chains[i].adapted[0][1], float(accs[i]), 'adapts to the outcome')


@oracle('C26', iters=80)
def hidden_section(t):
    """switching.update_hidden_section, ito.update_sde"""
    p, nr = int(t.rng.integers(1, 4)), int(t.rng.integers(1, 4))
    mod, L, P = swi(t, p, nr)
    th = t.rng.normal(size=(nr, p)); (z0, h0), (z1, h1) = path(t, nr, 10.), path(t, nr, 1010.)
    pre, acc, esc = [bool(x) for x in t.rng.integers(2, size=3)]
    ctrl = sm.Controls(.2, .01, 1, 7, pre)
    t.note(parameters=th, current=h0, proposed=h1, precoin=pre)
    got, cuts = [], {0: 10. * len(h0.t) - 15, 1: 1010 + 10. * len(h1.t) - 25}
    hs, zs = (h0, h1), (z0, z1)

    def args(z, nm, dn, disc, bounds):
        w = lab(z) >= 1000; h = hs[w]; k = int(z.hit_z); y = h.yt[k]
        for o in (nm, dn): close(t, o, tuple(th[y]) + (h.t[k + 1] - h.t[k], h.vt[k], h.vt[k + 1], y), 'segment of the maps')
        close(t, bounds, tuple(th[y]) + (y,), 'bounds of the discrepancy')
        if disc is not None: close(t, disc, tuple(th[y]) + (y,), 'discrepancy')
        return w

    def coin(z, nm, dn, disc, bounds, ome, batch=None):
        w = args(z, nm, dn, disc, bounds)
        return lab(z) < cuts[w], None, mkseed(lab(z) + .5, z.hit_z)
    weight = lambda z: hash01(lab(z), z.hit_z)

    def integral(z, nm, dn, bounds):
        args(z, nm, dn, None, bounds); return weight(z)
    W = [sum(map(weight, zs[w])) + sum(L(th, hs[w], None)) for w in range(2)]
    for _ in range(200 if pre else 2):
        log = []

        def twocoin(w1, w2, c1, c2, q, prop0, ome, max_props=None):
            log.append((w1, w2))
            last = []
            for c, w in ((c1, 1), (c2, 0)):
                for r in range(2): ok, z = next(c)
                close(t, [lab(x) for x in z], [lab(x) + 1 for x in zs[w]], 'the latest refined seeds are flipped')
                t.check(ok == all(lab(x) + .5 < cuts[w] for x in zs[w]), 'heads if every segment is heads')
                last.append(z)
            t.check(prop0 is z0, 'falls back to the current path')
            return acc, False, last[0] if acc else prop0 if esc else last[1]
        with stub(sd, 'flip_poisson_coin', coin), stub(sd, 'integrate_disc_bound', integral), stub(sm, 'sample_twocoin', twocoin):
            a, z, h = sm.update_hidden_section(th, np.eye(nr), z0, h0, z1, h1, mod, ctrl, t.gen())
        ok = acc and bool(log); got.append(bool(log))
        t.check(bool(log) or pre, 'flips the two coins'); t.check(bool(a) == ok, 'reports the outcome')
        if log: close(t, log[0][0] - log[0][1], 0 if pre else W[1] - W[0], 'ratio of the weights')
        for x, y in zip(h, hs[ok]): close(t, x, y, 'anchors of the path that is kept')
        close(t, [lab(x) for x in z], [lab(x) + (1 if log and not (esc and not acc) else 0) for x in zs[ok]], 'seeds of the path that is kept')
    if pre:
        b = barker(W[1], W[0]); t.mean_is(got, b, np.sqrt(b * (1 - b)), 'frequency of the pre-flip')
    # the sections together
    m = int(t.rng.integers(1, 5)); accs = t.rng.integers(2, size=m).astype(bool); done = []
    y1, tc = object(), object()

    class R:
        def propose(self, *a): return y1, tc
        def adapt(self, y, pr): done.append((y, pr))
    mod2 = mod._replace(sample_aug=lambda x, y, *a: ('z1', 'h1') if x is th and y is y1 else None)
    split = lambda z, h, c: ([(z, k) for k in range(m)], [(h, k) for k in range(m)]) if c is tc else None

    def section(x, lam, z0, h0, z1, h1, mo, ct, ome):
        k = z0[1]
        t.check((z0, h0, z1, h1) == (('z0', k), ('h0', k), ('z1', k), ('h1', k)), 'sections at the same place')
        return accs[k], ('za', k), ('ha', k)

    def paste(z, h):
        t.check(list(z) == [('za', k) for k in range(m)] and list(h) == [('ha', k) for k in range(m)], 'all sections in order')
        return 'z', 'h'
    with stub(sm, 'split_hidden', split), stub(sm, 'update_hidden_section', section), stub(sm, 'paste_hidden', paste), \
            stub(types, 'prune_anchorage', lambda h: ('pruned', h)):
        r = sm.update_hidden(th, np.eye(nr), 'z0', 'h0', mod2, ctrl, R(), t.gen(), Parallel(1))
    t.check(r == ('z', 'h'), 'the pasted path')
    t.check(len(done) == 1 and done[0][0] == ('pruned', 'h'), 'adapts to the new regimes'); close(t, done[0][1], np.mean(accs), 'adapts to the share of sections exchanged')
