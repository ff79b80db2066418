"""C26: posterior updates of parameters and hidden paths.  The model enters by its callables, which are arbitrary
functions of what they are given; the two-coin factories (C20), the dual and Poisson coins (C15, C18) and the
samplers' propose and adapt (C21, C22) by their contracts."""
import inspect
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from pyvc.core import ite, sabs, sexp
from ._seed import *

at = lambda a, i: M.asarr(a).get((i,))


class Hidden:
    """seeds of the hidden path, recognised by a label of their own and the position of their segment"""
    def __init__(self, v):
        self.v, self.cls = v, seed_cls(v)
        self.lab, self.lo, self.hi, self.ref = v.func('label'), v.func('loose'), v.func('tight'), v.func('refined')
        self.rounds = 0

    def seed(self, label, k): return self.cls(label, label, self.lo(label), self.hi(label), k, None)

    def partition(self, n, name):
        f = self.v.func(name)
        return M.SymList(n, lambda k: self.seed(f(k), k)), f


def tok(a): return tuple(a)


def same_toks(a, b):
    if len(a) != len(b): return False
    out = []
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x is not y and x != y: return False
        else: out.append(eqv(x, y))
    return conj(out) if out else True


def is_(v, name, got, want):
    """equal tokens"""
    if not isinstance(got, tuple): return v.ensure(name, False)
    v.ensure(name, same_toks(got, want))


class ItoModel:
    """an Ito model with p parameters whose callables are arbitrary functions"""
    def __init__(self, v, p, t, vt):
        self.v, self.p, self.t, self.vt = v, p, t, vt
        self.lik, self.prior = v.func('loglik', p), v.func('log_prior', p)
        self.grad = [v.func('grad%d' % j, 2 * p + 5) for j in range(p)]
        K = v.load('ctbayes.ito.mcmc')
        n = self.n = t._shape[0]

        def whole(t_, vt_):
            i = v.index(n, 'obs') if not core.CTX.generic_stack else None
            v.ensure_len('all observation times', M.asarr(t_), n)
            if i is not None: v.ensure_eq('observation times', at(t_, i), at(t, i)); v.ensure_eq('observed values', at(vt_, i), at(vt, i))

        def loglik(thi, t_, vt_):
            whole(t_, vt_)
            return self.lik(*self.row(thi))

        def normops(thi, t_, vt_):
            t_, vt_ = M.asarr(t_), M.asarr(vt_)
            op = lambda k: tuple((w,) + tuple(self.row(thi)) + (at(t_, k + 1) - at(t_, k), at(vt_, k), at(vt_, k + 1)) for w in ('norm', 'denorm'))
            m = t_._shape[0]
            if type(m) is int: return [op(k) for k in range(m - 1)]
            return M.SymList(m - 1, op)

        def bounds_grad(a, b, T, v0, v1, lo, hi):
            return M.Arr.from_list([f(*(self.row(a) + self.row(b) + [T, v0, v1, lo, hi])) for f in self.grad])
        self.sampled = []

        def sample_aug(thi, t_, vt_, ome):
            whole(t_, vt_)
            self.sampled.append((self.row(thi), ome))
            return self.proposal
        self.mod = K.Model(t, vt, None, lambda thi: self.prior(*self.row(thi)), sample_aug, normops, loglik,
                           lambda thi: ('disc',) + tuple(self.row(thi)), lambda thi: ('bounds',) + tuple(self.row(thi)), bounds_grad)

    def row(self, thi): return [at(thi, j) for j in range(self.p)]

    def op(self, w, th, k): return (w,) + tuple(th) + (at(self.t, k + 1) - at(self.t, k), at(self.vt, k), at(self.vt, k + 1))


def observations(v, lo=2):
    n = v.dim('observations', lo, 3)
    return n, v.freeze(v.sorted('t', n), 'times'), v.freeze(v.vec('v', n), 'observations')


class Chain:
    """propose / adapt of a random walk sampler"""
    def __init__(self, v, value): self.v, self.value, self.adapted, self.gens = v, value, [], []

    def propose(self, ome):
        self.gens.append(ome)
        self.lf, self.lb = self.v.real('log_p_for'), self.v.real('log_p_back')
        return self.value, self.lf, self.lb

    def adapt(self, x, p): self.adapted.append((x, p))


class Dual:
    """the dual coin as a contract: its outcome is an arbitrary function of the seed, and it may refine it"""
    def __init__(self, v, hid, check):
        self.heads, self.hid, self.calls = v.func('heads', 2), hid, []

        def dual(seed, intensity, norm_rsde_nil, denorm_rsde_nil, eval_disc_nil, norm_rsde_prime, denorm_rsde_prime, eval_disc_prime, upside, ome, batch_size):
            check(seed, (intensity, (norm_rsde_nil, denorm_rsde_nil, eval_disc_nil), (norm_rsde_prime, denorm_rsde_prime, eval_disc_prime)), upside, ome, batch_size)
            self.calls.append(seed)
            return self.flip(seed)
        v.contract(SEED + 'flip_dual_coin', dual)

    def flip(self, seed): return self.heads(seed[0], self.hid.rounds) > 0, self.hid.seed(self.hid.ref(seed[0]), seed.hit_z)


def dual_args(v, M_, seed, got, a, b, T, v0, v1, j):
    """parameters a and b (different in coordinate j only) on a segment of duration T from v0 to v1"""
    inten, nil, pri = got
    for nm, g, w in (('current', nil, a), ('proposed', pri, b)):
        is_(v, nm + ' standardisation', g[0], ('norm',) + tuple(w) + (T, v0, v1)); is_(v, nm + ' reverse map', g[1], ('denorm',) + tuple(w) + (T, v0, v1))
        is_(v, nm + ' discrepancy', g[2], ('disc',) + tuple(w))
    G = M_.grad[j](*(list(a) + list(b) + [T, v0, v1, seed.loose_z, seed.tight_z]))
    v.ensure('intensity dominates change times gradient bound', inten >= sabs(b[j] - a[j]) * G)


def barker(v, name, u, wp, wn, accepted):
    """U is below (accepted) or above weight' / (weight' + weight)"""
    a, b = sexp(wp), sexp(wn)
    v.ensure('exponential of the log of the uniform', disj([u <= 0, eqv(sexp(core.slog(u)), u)]))
    v.ensure('exponential of the log ratio', eqv(sexp(wp - core.slog(a + b)) * (a + b), a))
    v.ensure('exponential increases', implies(core.slog(u) >= wp - core.slog(a + b), sexp(core.slog(u)) >= sexp(wp - core.slog(a + b))))
    v.ensure('exponential increases', implies(core.slog(u) <= wp - core.slog(a + b), sexp(core.slog(u)) <= sexp(wp - core.slog(a + b))))
    v.ensure(name, u * (a + b) <= a if accepted else u * (a + b) >= a)


@unit('C26', functions=['ctbayes.ito.mcmc:update_params', 'ctbayes.ito.mcmc:flip_param_precoin', 'ctbayes.ito.mcmc:eval_param_weight', 'ctbayes.ito.mcmc:flip_param_coins', 'ctbayes.ito.mcmc:flip_param_coin'])
def ito_parameters(v):
    """one update of a random parameter, for any number of observations and any model with up to three parameters"""
    p = v.choose(1, 2, 3)
    n, t, vt = observations(v)
    M_ = ItoModel(v, p, t, vt)
    K = v.load('ctbayes.ito.mcmc')
    pre = v.choose(True, False)
    q, bs = v.real('pr_portkey'), v.int('batch_size', 1)
    ctrl = ct = K.Controls(v.real('opt'), q, 1, bs, pre)
    th = v.freeze(v.vec('thi', p), 'parameters')
    hid = Hidden(v)
    z, lab = hid.partition(n - 1, 'z')
    g = v.gen()
    chains = [Chain(v, v.real('proposal%d' % j)) for j in range(p)]
    used = []
    st = dict(round=0, up=None)

    def prime(j): return [chains[i].value if i == j else at(th, i) for i in range(p)]

    def sector():
        j = [i for i in range(p) if chains[i].gens]
        v.ensure('one parameter is proposed', len(j) == 1 and len(chains[j[0]].gens) == 1 and chains[j[0]].gens[0] is g)
        return j[0]

    def check(seed, got, up, ome, batch):
        j = sector(); k = seed.hit_z
        v.ensure('direction asked for', up is st['up']); v.ensure('generator', ome is g); v.ensure('batch size', eqv(batch, bs))
        dual_args(v, M_, seed, got, [at(th, i) for i in range(p)], prime(j), at(t, k + 1) - at(t, k), at(vt, k), at(vt, k + 1), j)
    D = Dual(v, hid, check)

    def segment(thi_nil, thi_prime, z_, mod, ctrl, upside, ome):
        """flip_param_coin as verified below"""
        j = sector(); k = z_.hit_z
        v.ensure('direction asked for', upside is st['up']); v.ensure('generator', ome is g); v.ensure('controls', ctrl is ct)
        v.ensure('current and proposed parameters', conj([conj([eqv(at(thi_nil, i), at(th, i)), eqv(at(thi_prime, i), prime(j)[i])]) for i in range(p)]))
        tt, ww = M.asarr(mod.t), M.asarr(mod.vt)
        v.ensure('the two observations of the segment', conj([eqv(tt._shape[0], 2), eqv(ww._shape[0], 2), eqv(at(tt, 0), 0), eqv(at(tt, 1), at(t, k + 1) - at(t, k)), eqv(at(ww, 0), at(vt, k)), eqv(at(ww, 1), at(vt, k + 1))]))
        v.ensure('the same model', all(getattr(mod, f) is getattr(M_.mod, f) for f in mod._fields if f not in ('t', 'vt')))
        return D.flip(z_)
    v.contract('ctbayes.ito.mcmc:flip_param_coin', segment)

    def weights(j):
        L = lambda w: M_.lik(*w) + M_.prior(*w)
        return L(prime(j)) + chains[j].lb, L([at(th, i) for i in range(p)]) + chains[j].lf

    def joint(w1, w2, coins, pr_portkey, ome, max_props=None):
        used.append((w1, w2))
        wp, wn = weights(sector())
        if pre:
            barker(v, 'pre-flip accepts below the ratio', v.drawn('U')[-1].value, wp, wn, True)
            v.ensure_eq('equal weights after the pre-flip', w1, w2)
        else: v.ensure_eq('ratio of the weights', w1 - w2, wp - wn)
        v.ensure('escape probability and generator', pr_portkey is q and ome is g)
        next(coins)
        cur = z
        for r in range(2):
            st['up'] = v.bool('side%d' % r)
            hid.rounds = r
            ok, cur_ = coins.send(st['up'])
            i = v.index(n - 1, 'segment')
            v.ensure_len('one refined seed per segment', cur_, n - 1)
            s0, s1 = cur[i], cur_[i]
            v.ensure('the latest refined seeds are flipped and handed on', conj([eqv(s1[0], hid.ref(s0[0])), eqv(s1.hit_z, i)]))
            if v.cases(ok): v.ensure('heads only if every segment is heads', D.heads(s0[0], r) > 0)
            else: v.contradiction('tails only if a segment is tails', lambda: v.known_all(n - 1, lambda k: D.heads(cur[k][0], r) > 0))
            cur = cur_
        st['last'] = cur
        st['acc'] = v.bool('accept')
        return st['acc'], False, cur
    v.contract(BF + 'sample_twocoin_joint', joint)
    new_th, new_z = v.call(K.update_params, th, z, M_.mod, ctrl, chains, g)
    j = sector(); c = chains[j]
    wp, wn = weights(j)
    v.ensure('the sampler of the parameter adapts once', len(c.adapted) == 1 and all(not d.adapted for d in chains if d is not c))
    if not used:
        v.ensure('only the pre-flip rejects at once', pre)
        u = v.drawn('U')[-1].value
        barker(v, 'pre-flip rejects above the ratio', u, wp, wn, False)
        ok, same = False, True
    else:
        ok, same = v.cases(st['acc']), False
    v.ensure_len('one value per parameter', new_th, p)
    for i in range(p): v.ensure_eq('proposed value on acceptance, current otherwise', at(new_th, i), prime(j)[i] if ok else at(th, i))
    v.ensure_eq('adapts to the new value', c.adapted[0][0], chains[j].value if ok else at(th, j)); v.ensure_eq('adapts to the outcome', c.adapted[0][1], 1 if ok else 0)
    i = v.index(n - 1, 'segment')
    v.ensure_len('one seed per segment', new_z, n - 1)
    src = z if same else st['last']
    v.ensure('hidden path of the last flip', conj([eqv(new_z[i][0], src[i][0]), eqv(new_z[i].hit_z, i)]))


@unit('C26', functions=['ctbayes.ito.mcmc:flip_param_coin'])
def ito_segment_coin(v):
    """the dual coin of one segment, for any model with up to three parameters"""
    p = v.choose(1, 2, 3)
    j = v.choose(*range(p))
    T, v0, v1 = v.real('T', pos=True), v.real('v0'), v.real('v1')
    M_ = ItoModel(v, p, M.Arr.from_list([0, T]), M.Arr.from_list([v0, v1]))
    K = v.load('ctbayes.ito.mcmc')
    bs, g, up = v.int('batch_size', 1), v.gen(), v.bool('upside')
    a = v.freeze(v.vec('thi', p), 'parameters')
    x = v.real('proposal')
    b = v.freeze(M.Arr.from_list([x if i == j else at(a, i) for i in range(p)]), 'proposed parameters')
    hid = Hidden(v)
    z = hid.seed(v.real('label'), 0)

    def check(seed, got, upside, ome, batch):
        v.ensure('direction asked for', upside is up); v.ensure('generator', ome is g); v.ensure('batch size', eqv(batch, bs)); v.ensure('the seed given', seed is z)
        dual_args(v, M_, seed, got, [at(a, i) for i in range(p)], [at(b, i) for i in range(p)], T, v0, v1, j)
    D = Dual(v, hid, check)
    ok, new = v.call('ctbayes.ito.mcmc:flip_param_coin', a, b, z, M_.mod, K.Controls(v.real('opt'), v.real('q'), 1, bs, True), up, g)
    v.ensure('one dual coin', len(D.calls) == 1)
    want, ref = D.flip(z)
    v.ensure('its outcome and refined seed', conj([eqv(new[0], ref[0]), disj([conj([ok, want]), conj([disj([ok, want]) == False])])]))


class Poisson:
    """the Poisson coin of the exact algorithm and its discounted log weight (C15) as contracts"""
    def __init__(self, v, hid, args, batch):
        self.v, self.heads, self.weight, self.hid = v, v.func('heads', 2), v.func('minus_integrated_bound', 1), hid
        self.gens = []

        def coin(seed, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome, batch_size=None):
            args(seed, norm_rsde, denorm_rsde, eval_bounds_disc, eval_disc)
            v.ensure('batch size', eqv(batch_size, batch))
            self.gens.append(ome)
            return self.heads(seed[0], hid.rounds) > 0, v.real('discount'), hid.seed(hid.ref(seed[0]), seed.hit_z)

        def integral(seed, norm_rsde, denorm_rsde, eval_bounds_disc):
            args(seed, norm_rsde, denorm_rsde, eval_bounds_disc, None)
            return self.weight(seed[0])
        v.contract(SEED + 'flip_poisson_coin', coin); v.contract(SEED + 'integrate_disc_bound', integral)


def iff(a, b): return disj([conj([a, b]), conj([disj([a]) == False, disj([b]) == False])])


@unit('C26', functions=['ctbayes.ito.mcmc:update_sde', 'ctbayes.ito.mcmc:update_sde_bridge', 'ctbayes.ito.mcmc:eval_sde_weight', 'ctbayes.ito.mcmc:flip_sde_coins'])
def ito_hidden_path(v):
    """an arbitrary segment of the update of the hidden path, for any number of observations"""
    p = v.choose(1, 2, 3)
    n, t, vt = observations(v)
    M_ = ItoModel(v, p, t, vt)
    K = v.load('ctbayes.ito.mcmc')
    th = v.freeze(v.vec('thi', p), 'parameters')
    q, bs, g = v.real('pr_portkey'), v.int('batch_size', 1), v.gen()
    hid = Hidden(v)
    z, lab = hid.partition(n - 1, 'z')
    M_.proposal, lab1 = hid.partition(n - 1, 'z_proposed')
    out, acc, esc = v.func('returned'), v.func('accepted'), v.func('escaped')
    w = [at(th, i) for i in range(p)]

    def args(seed, nm, dn, bounds, disc):
        k = seed.hit_z
        is_(v, 'standardisation', nm, M_.op('norm', w, k)); is_(v, 'reverse map', dn, M_.op('denorm', w, k))
        is_(v, 'bounds of the discrepancy', bounds, ('bounds',) + tuple(w))
        if disc is not None: is_(v, 'discrepancy', disc, ('disc',) + tuple(w))
    C = Poisson(v, hid, args, bs)

    def twocoin(w1, w2, coin1, coin2, pr_portkey, prop0, ome, max_props=None):
        k = prop0.hit_z
        v.ensure('escape probability', pr_portkey is q)
        v.ensure('falls back to the current segment', eqv(prop0[0], lab(k)))
        v.ensure_eq('ratio of the weights', w1 - w2, C.weight(lab1(k)) - C.weight(lab(k)))
        for coin, l in ((coin1, lab1(k)), (coin2, lab(k))):
            for r in range(2):
                hid.rounds = r
                ok, s = next(coin)
                v.ensure('flips the coin of the latest seed', conj([iff(ok, C.heads(l, r) > 0), eqv(s[0], hid.ref(l)), eqv(s.hit_z, k)]))
                v.ensure('own generator', C.gens[-1] is ome and ome is not g)
                l = hid.ref(l)
        return acc(k) > 0, esc(k) > 0, hid.seed(out(k), k)
    v.contract(BF + 'sample_twocoin', twocoin)
    r = v.call(K.update_sde, th, z, M_.mod, K.Controls(v.real('opt'), q, 1, bs, v.choose(True, False)), g, v.load('joblib_pool') if False else pool(v))
    v.ensure('one proposal from the given generator', len(M_.sampled) == 1 and M_.sampled[0][1] is g)
    v.ensure('proposed under the current parameters', same_toks(M_.sampled[0][0], w))
    v.ensure_len('one seed per segment', r, n - 1)
    i = v.index(n - 1, 'segment')
    v.ensure('the outcome of the segment', conj([eqv(r[i][0], out(i)), eqv(r[i].hit_z, i)]))


def pool(v):
    from pyvc import world
    return world.Parallel()


class SwiModel:
    """a switching model with any number of regimes and p parameters for each; `versions` are the parameter matrices
    that are allowed to appear, as (name, matrix) with the current one first"""
    def __init__(self, v, p, nr, th):
        self.v, self.p, self.nr, self.th = v, p, nr, th
        self.prop = None
        self.lik = v.func('loglik_of_regime', p + 1)
        self.prior = v.func('log_prior')
        self.grad = [v.func('grad%d' % j, 2 * p + 5) for j in range(p)]
        K = v.load('ctbayes.switching.mcmc')
        self.liks = []

        def loglik(thi, t, yt, vt, restrict=None):
            self.liks.append((thi, t, yt, vt, restrict))
            return self.on_lik(thi, t, yt, vt, restrict)

        def bounds_grad(a, b, T, v0, v1, lo, hi):
            return M.Arr.from_list([f(*(self.vecs(a) + self.vecs(b) + [T, v0, v1, lo, hi])) for f in self.grad])

        def normops(thi, t, yt, vt):
            t, yt, vt = M.asarr(t), M.asarr(yt), M.asarr(vt)
            op = lambda k: tuple((w,) + tuple(self.row(thi, at(yt, k))) + (at(t, k + 1) - at(t, k), at(vt, k), at(vt, k + 1), at(yt, k)) for w in ('norm', 'denorm'))
            m = t._shape[0]
            if type(m) is int: return [op(k) for k in range(m - 1)]
            return M.SymList(m - 1, op)
        self.hyper = (object(), object())
        self.sampled = []

        def sample_aug(thi, y, t, vt, ome):
            self.sampled.append((thi, y, t, vt, ome))
            return self.proposal
        self.t, self.vt = v.vec('obs_t', 2), v.vec('obs_v', 2)
        self.mod = K.Model(self.t, self.vt, None, self.hyper, self.on_prior, sample_aug, normops, loglik,
                           lambda thi, y0: ('disc',) + tuple(self.row(thi, y0)) + (y0,), lambda thi, y0: ('bounds',) + tuple(self.row(thi, y0)) + (y0,), bounds_grad)

    def vecs(self, r): return [at(r, j) for j in range(self.p)]
    def row(self, thi, y): return [M.asarr(thi).get((y, j)) for j in range(self.p)]

    def version(self, thi):
        """0 for the current matrix, 1 for the one with the proposed row"""
        thi = M.asarr(thi)
        if self.prop is None or thi is self.th: k = 0
        else: k = 1 if self.v.entails(conj([eqv(thi.get((self.state, j)), self.prop[j]) for j in range(self.p)])) else 0
        if thi is not self.th:
            i = self.v.index(self.nr, 'row')
            for j in range(self.p): self.v.ensure_eq('rows of other regimes are untouched', thi.get((i, j)), self.entry(k, i, j))
        return k

    def entry(self, k, i, j):
        e = self.th.get((i, j))
        return e if k == 0 else M.ite_bool(eqv(i, self.state), self.prop[j], e)

    def on_prior(self, thi): return self.prior(self.version(thi))


def anchors(v, name='', lo=2):
    """an anchorage of any length, frozen"""
    A = v.fn('ctbayes.switching.types:Anchorage')
    n = v.dim('anchors' + name, lo, 3)
    nr = v.nr
    return n, A(v.freeze(v.sorted('t' + name, n), 'times' + name), v.freeze(v.vec('y' + name, n, lambda i, y: [y >= 0, y < nr], sort='i'), 'regimes' + name), v.freeze(v.vec('v' + name, n), 'values' + name))


def same_arr(v, name, a, b):
    v.ensure(name, a is b) if a is b else v.ensure_arr(name, M.asarr(a), M.asarr(b))


class Prop(Chain):
    def propose(self, ome):
        r = Chain.propose(self, ome)
        return r


@unit('C26', functions=['ctbayes.switching.mcmc:update_params_section', 'ctbayes.switching.mcmc:flip_param_precoin', 'ctbayes.switching.mcmc:eval_param_weight', 'ctbayes.switching.mcmc:flip_param_coins'])
def regime_parameters(v):
    """the update of the parameters of an arbitrary regime, for any number of anchors and regimes"""
    p = v.choose(1, 2)
    nr = v.nr = v.dim('regimes', 1, 3)
    K = v.load('ctbayes.switching.mcmc')
    th = v.freeze(v.array('thi', (nr, p)), 'parameters')
    n, h = anchors(v)
    hid = Hidden(v)
    z, lab = hid.partition(n - 1, 'z')
    S = SwiModel(v, p, nr, th)
    s = S.state = v.index(nr, 'state')
    prop = M.Arr.from_list([v.real('proposal%d' % j) for j in range(p)])
    chain = Chain(v, prop)
    foreign = Chain(v, None)
    pre = v.choose(True, False)
    q, bs, g = v.real('pr_portkey'), v.int('batch_size', 1), v.gen()
    ct = K.Controls(v.real('opt'), q, 1, bs, pre)
    S.prop = [prop.get((j,)) for j in range(p)]
    nil = [th.get((s, j)) for j in range(p)]

    def on_lik(thi, t, yt, vt, restrict):
        for a, b in ((t, h.t), (yt, h.yt), (vt, h.vt)): same_arr(v, 'likelihood of the anchors', a, b)
        v.ensure_eq('restricted to the regime', restrict, s)
        k = S.version(thi)
        return S.lik(s, *(nil if k == 0 else S.prop)), v.real('other term')
    S.on_lik = on_lik
    st, used = dict(up=None), []

    def check(seed, got, up, ome, batch):
        k = seed.hit_z
        v.ensure('direction asked for', up is st['up']); v.ensure('generator', ome is g); v.ensure('batch size', eqv(batch, bs))
        segment_args(v, S, seed, got, nil, S.prop, at(h.t, k + 1) - at(h.t, k), at(h.yt, k), at(h.vt, k), at(h.vt, k + 1))
    D = Dual(v, hid, check)

    def segment(thi_nil, thi_prime, fin_t, init_y, init_v, fin_v, z_, mod, ctrl, upside, ome):
        """flip_param_coin as verified below"""
        k = z_.hit_z
        v.ensure('direction asked for', upside is st['up']); v.ensure('generator', ome is g); v.ensure('controls', ctrl is ct)
        for nm, m, r in (('current', thi_nil, nil), ('proposed', thi_prime, S.prop)):
            v.ensure(nm + ' parameters of the regime of the segment', conj([eqv(M.asarr(m).get((init_y, j)), r[j]) for j in range(p)]))
        v.ensure('the segment', conj([eqv(fin_t, at(h.t, k + 1) - at(h.t, k)), eqv(init_y, at(h.yt, k)), eqv(init_y, s), eqv(init_v, at(h.vt, k)), eqv(fin_v, at(h.vt, k + 1))]))
        v.ensure('the same model', all(getattr(mod, f) is getattr(S.mod, f) for f in mod._fields if f not in ('t', 'vt')))
        return D.flip(z_)
    v.contract('ctbayes.switching.mcmc:flip_param_coin', segment)

    weights = lambda: (S.lik(s, *S.prop) + S.prior(1) + chain.lb, S.lik(s, *nil) + S.prior(0) + chain.lf)

    def joint(w1, w2, coins, pr_portkey, ome, max_props=None):
        used.append((w1, w2))
        wp, wn = weights()
        if pre:
            barker(v, 'pre-flip accepts below the ratio', v.drawn('U')[-1].value, wp, wn, True)
            v.ensure_eq('equal weights after the pre-flip', w1, w2)
        else: v.ensure_eq('ratio of the weights', w1 - w2, wp - wn)
        v.ensure('escape probability and generator', pr_portkey is q and ome is g)
        next(coins)
        cur = z
        for r in range(2):
            st['up'] = v.bool('side%d' % r)
            hid.rounds = r
            ok, new = coins.send(st['up'])
            i = v.index(n - 1, 'segment')
            v.ensure_len('one seed per segment', new, n - 1)
            mine = eqv(at(h.yt, i), s)
            v.ensure('only segments of the regime are flipped, from their latest seeds', conj([eqv(new[i][0], M.ite_bool(mine, hid.ref(cur[i][0]), cur[i][0])), eqv(new[i].hit_z, i)]))
            H = lambda k, c=cur, r=r: disj([disj([eqv(at(h.yt, k), s)]) == False, D.heads(c[k][0], r) > 0])
            if v.cases(ok): v.ensure('heads only if every segment of the regime is heads', H(i))
            else: v.contradiction('tails only if a segment of the regime is tails', lambda: v.known_all(n - 1, H))
            cur = new
        st['last'] = cur
        st['acc'] = v.bool('accept')
        return st['acc'], False, cur
    v.contract(BF + 'sample_twocoin_joint', joint)
    chains = M.SymList(nr, lambda k: chain if v.entails(eqv(k, s)) else foreign) if type(nr) is not int else [chain if v.entails(eqv(k, s)) else foreign for k in range(nr)]
    ok, new_th, new_z = v.call(K.update_params_section, th, z, h, S.mod, ct, chains, s, g)
    v.ensure('the parameters of this regime are proposed', len(chain.gens) == 1 and chain.gens[0] is g and not foreign.gens)
    wp, wn = weights()
    if not used:
        v.ensure('only the pre-flip rejects at once', pre)
        barker(v, 'pre-flip rejects above the ratio', v.drawn('U')[-1].value, wp, wn, False)
        accepted, src = False, z
    else: accepted, src = v.cases(st['acc']), st['last']
    v.ensure('reports the outcome', iff(ok, accepted))
    i, k = v.index(nr, 'row'), v.index(n - 1, 'segment')
    v.ensure_len('one row per regime', new_th, nr)
    for j in range(p): v.ensure_eq('proposed row on acceptance, everything else as before', M.asarr(new_th).get((i, j)), S.entry(1 if accepted else 0, i, j))
    v.ensure_len('one seed per segment', new_z, n - 1)
    v.ensure('hidden path of the last flip', conj([eqv(new_z[k][0], src[k][0]), eqv(new_z[k].hit_z, k)]))


def segment_args(v, S, seed, got, a, b, T, y, v0, v1):
    inten, nil, pri = got
    for nm, g, w in (('current', nil, a), ('proposed', pri, b)):
        is_(v, nm + ' standardisation', g[0], ('norm',) + tuple(w) + (T, v0, v1, y)); is_(v, nm + ' reverse map', g[1], ('denorm',) + tuple(w) + (T, v0, v1, y))
        is_(v, nm + ' discrepancy', g[2], ('disc',) + tuple(w) + (y,))
    G = [f(*(list(a) + list(b) + [T, v0, v1, seed.loose_z, seed.tight_z])) for f in S.grad]
    d = [b[j] - a[j] for j in range(S.p)]
    # the gradient bounds are nonnegative (C18)
    for x in G: v.assume(x >= 0)
    tot = 0
    for x, y_ in zip(G, d): tot = tot + x * sabs(y_)
    v.ensure('intensity dominates the sum of changes times gradient bounds', inten >= tot)


@unit('C26', functions=['ctbayes.switching.mcmc:flip_param_coin'])
def regime_segment_coin(v):
    """the dual coin of one segment, for any number of regimes"""
    p = v.choose(1, 2)
    nr = v.nr = v.dim('regimes', 1, 3)
    th = v.freeze(v.array('thi', (nr, p)), 'parameters')
    th1 = v.freeze(v.array('thi_proposed', (nr, p)), 'proposed parameters')
    K = v.load('ctbayes.switching.mcmc')
    S = SwiModel(v, p, nr, th)
    y = v.index(nr, 'regime')
    T, v0, v1 = v.real('T', pos=True), v.real('v0'), v.real('v1')
    bs, g, up = v.int('batch_size', 1), v.gen(), v.bool('upside')
    hid = Hidden(v)
    z = hid.seed(v.real('label'), 0)
    row = lambda m: [m.get((y, j)) for j in range(p)]

    def check(seed, got, upside, ome, batch):
        v.ensure('direction asked for', upside is up); v.ensure('generator', ome is g); v.ensure('batch size', eqv(batch, bs)); v.ensure('the seed given', seed is z)
        segment_args(v, S, seed, got, row(th), row(th1), T, y, v0, v1)
    D = Dual(v, hid, check)
    for f in S.grad: v.assume(f(*(row(th) + row(th1) + [T, v0, v1, z.loose_z, z.tight_z])) >= 0)
    ok, new = v.call(K.flip_param_coin, th, th1, T, y, v0, v1, z, S.mod, K.Controls(v.real('opt'), v.real('q'), 1, bs, True), up, g)
    v.ensure('one dual coin', len(D.calls) == 1)
    want, ref = D.flip(z)
    v.ensure('its outcome and refined seed', conj([eqv(new[0], ref[0]), iff(ok, want)]))


@unit('C26', functions=['ctbayes.switching.mcmc:update_params'])
def regimes(v):
    """the updates of the regimes put together, for any number of regimes and anchors"""
    p = v.choose(1, 2)
    nr = v.nr = v.dim('regimes', 1, 3)
    K = v.load('ctbayes.switching.mcmc')
    th = v.freeze(v.array('thi', (nr, p)), 'parameters')
    n, h = anchors(v)
    hid = Hidden(v)
    z, lab = hid.partition(n - 1, 'z')
    S = SwiModel(v, p, nr, th)
    S.on_lik = lambda *a: v.ensure('no likelihood outside the sections', False)
    ct, g = K.Controls(v.real('opt'), v.real('q'), 1, v.int('batch_size', 1), v.choose(True, False)), v.gen()
    acc, row, ref = v.func('accepted'), [v.func('row%d' % j) for j in range(p)], v.func('refined_in', 2)
    adapted = []

    class Sampler:
        def __init__(self, k): self.k = k
        def adapt(self, x, pr):
            adapted.append(self.k)
            for j in range(p): v.ensure_eq('adapts to the new parameters of the regime', at(x, j), row[j](self.k))
            v.ensure_eq('adapts to the outcome of the regime', pr, ite(acc(self.k) > 0, 1, 0))
        def _subst(self, pairs): return Sampler(M.subst(self.k, pairs))
    chains = M.SymList(nr, Sampler)
    gens = []

    def section(thi_nil, z_, h_, mod, ctrl, param_samplers, state, ome):
        v.ensure('the current state of the chain', thi_nil is th and z_ is z and h_ is h and mod is S.mod and ctrl is ct and param_samplers is chains)
        v.ensure('a generator of its own, spawned from the given one', ome is not g and getattr(ome, 'parent', None) is g and eqv(ome.key[1], state))
        gens.append(ome)
        new = M.Arr((nr, p), lambda ix: M.ite_bool(eqv(ix[0], state), M.pick([f(state) for f in row], ix[1], lambda x: x), th.get(ix)))
        return acc(state) > 0, new, M.SymList(n - 1, lambda k: hid.seed(ref(state, k), k))
    v.contract('ctbayes.switching.mcmc:update_params_section', section)

    v.on_fallthrough(lambda loop, carried: v.ensure('one adaptation in each turn', len(adapted) == 1 and v.entails(conj([eqv(adapted[0], loop.index), eqv(loop.it.n, nr)]))))
    new_th, new_z = v.call(K.update_params, th, z, h, S.mod, ct, chains, g, pool(v))
    i, k = v.index(nr, 'row'), v.index(n - 1, 'segment')
    v.ensure_len('one row per regime', new_th, nr)
    for j in range(p): v.ensure_eq('the row of the section of the regime', M.asarr(new_th).get((i, j)), row[j](i))
    v.ensure_len('one seed per segment', new_z, n - 1)
    v.ensure('the segments of the section of their regime', conj([eqv(new_z[k][0], ref(at(h.yt, k), k)), eqv(new_z[k].hit_z, k)]))
    if type(nr) is int: v.ensure('one adaptation per regime', adapted == list(range(nr)))


@unit('C26', functions=['ctbayes.switching.mcmc:update_hidden_section', 'ctbayes.switching.mcmc:flip_hidden_precoin', 'ctbayes.switching.mcmc:eval_hidden_weight', 'ctbayes.switching.mcmc:flip_hidden_coins'])
def hidden_section(v):
    """an exchange of the hidden paths of one section, for any number of regimes and anchors"""
    p = v.choose(1, 2)
    nr = v.nr = v.dim('regimes', 1, 3)
    K = v.load('ctbayes.switching.mcmc')
    th = v.freeze(v.array('thi', (nr, p)), 'parameters')
    hid = Hidden(v)
    hs, ns, zs, labs = [], [], [], []
    for w in ('', '_proposed'):
        n, h = anchors(v, w)
        z, lab = hid.partition(n - 1, 'z' + w)
        ns.append(n); hs.append(h); zs.append(z); labs.append(lab)
    S = SwiModel(v, p, nr, th)
    pre = v.choose(True, False)
    q, bs, g = v.real('pr_portkey'), v.int('batch_size', 1), v.gen()
    ct = K.Controls(v.real('opt'), q, 1, bs, pre)
    lam = v.freeze(v.array('lam', (nr, nr)), 'generator matrix')
    terms = [[v.real('loglik%d%d' % (w, i)) for i in range(2)] for w in range(2)]

    def on_lik(thi, t, yt, vt, restrict):
        v.ensure('the current parameters', thi is th)
        v.ensure('all regimes', restrict is None)
        w = [t is h.t for h in hs].index(True)
        v.ensure('likelihood of the anchors', yt is hs[w].yt and vt is hs[w].vt)
        return terms[w][0], terms[w][1]
    S.on_lik = on_lik
    cur = dict(w=None)

    def args(seed, nm, dn, bounds, disc):
        k, w = seed.hit_z, cur['w'] if cur['w'] is not None else seed.which
        h = hs[w]
        y = at(h.yt, k)
        r = [th.get((y, j)) for j in range(p)]
        op = tuple(r) + (at(h.t, k + 1) - at(h.t, k), at(h.vt, k), at(h.vt, k + 1), y)
        is_(v, 'standardisation', nm, ('norm',) + op); is_(v, 'reverse map', dn, ('denorm',) + op)
        is_(v, 'bounds of the discrepancy', bounds, ('bounds',) + tuple(r) + (y,))
        if disc is not None: is_(v, 'discrepancy', disc, ('disc',) + tuple(r) + (y,))
    heads, integral = v.func('heads', 2), v.func('minus_integrated_bound')
    gens = []

    def which(seed):
        f = seed[0].e.decl().name()
        for w in (1, 0):
            if labs[w](0).e.decl().name() in seed[0].e.sexpr().replace('(', ' ').replace(')', ' ').split(): return w

    def coin(seed, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome, batch_size=None):
        cur['w'] = which(seed)
        args(seed, norm_rsde, denorm_rsde, eval_bounds_disc, eval_disc)
        v.ensure('batch size', eqv(batch_size, bs)); v.ensure('generator', ome is g)
        return heads(seed[0], hid.rounds) > 0, v.real('discount'), hid.seed(hid.ref(seed[0]), seed.hit_z)

    def integrate(seed, norm_rsde, denorm_rsde, eval_bounds_disc):
        cur['w'] = which(seed)
        args(seed, norm_rsde, denorm_rsde, eval_bounds_disc, None)
        return integral(seed[0])
    v.contract(SEED + 'flip_poisson_coin', coin); v.contract(SEED + 'integrate_disc_bound', integrate)
    used, last = [], {}

    def twocoin(w1, w2, coin1, coin2, pr_portkey, prop0, ome, max_props=None):
        used.append((w1, w2))
        if pre:
            barker(v, 'pre-flip accepts below the ratio', v.drawn('U')[-1].value, W[1], W[0], True)
            v.ensure_eq('equal weights after the pre-flip', w1, w2)
        else: v.ensure_eq('ratio of the weights', w1 - w2, W[1] - W[0])
        v.ensure('escape probability, generator and fallback', pr_portkey is q and ome is g and prop0 is zs[0])
        for c, w in ((coin1, 1), (coin2, 0)):
            z_ = zs[w]
            for r in range(2):
                hid.rounds = 10 * w + r
                ok, new = next(c)
                i = v.index(ns[w] - 1, 'segment')
                v.ensure_len('one refined seed per segment', new, ns[w] - 1)
                v.ensure('the latest refined seeds are flipped and handed on', conj([eqv(new[i][0], hid.ref(z_[i][0])), eqv(new[i].hit_z, i)]))
                H = lambda k, z_=z_, r=10 * w + r: heads(z_[k][0], r) > 0
                if v.cases(ok): v.ensure('heads only if every segment is heads', H(i))
                else: v.contradiction('tails only if a segment is tails', lambda: v.known_all(ns[w] - 1, H))
                z_ = new
            last[w] = z_
        st['acc'] = v.bool('accept')
        a = v.cases(st['acc'])
        # a rejection may also be an escape, which hands the fallback back
        st['z'] = last[1] if a else v.cases(v.bool('escaped')) and zs[0] or last[0]
        return a, False, st['z']
    W = [M.np_sum(M.Arr((ns[w] - 1,), lambda ix, w=w: integral(labs[w](ix[0])))) + terms[w][0] + terms[w][1] for w in range(2)]
    st = {}
    v.contract(BF + 'sample_twocoin', twocoin)
    ok, z, h = v.call(K.update_hidden_section, th, lam, zs[0], hs[0], zs[1], hs[1], S.mod, ct, g)
    if not used:
        v.ensure('only the pre-flip rejects at once', pre)
        barker(v, 'pre-flip rejects above the ratio', v.drawn('U')[-1].value, W[1], W[0], False)
        a, want = False, zs[0]
    else: a, want = v.entails(st['acc']), st['z']
    v.ensure('reports the outcome', iff(ok, a))
    v.ensure('anchors of the path that is kept', same_anchorage(v, h, hs[1 if a else 0]))
    k = v.index(ns[1 if a else 0] - 1, 'kept')
    v.ensure_len('one seed per segment', z, ns[1 if a else 0] - 1)
    v.ensure('seeds of the path that is kept', conj([eqv(z[k][0], want[k][0]), eqv(z[k].hit_z, k)]))


def same_anchorage(v, a, b):
    if all(x is y for x, y in zip(a, b)): return True
    for x, y, nm in zip(a, b, ('times', 'regimes', 'values')): v.ensure_arr(nm + ' of the anchors', M.asarr(x), M.asarr(y))
    return True


@unit('C26', functions=['ctbayes.switching.mcmc:update_hidden'])
def hidden_paths(v):
    """the sections put together, for any number of them; splitting and pasting by their contracts (C24)"""
    p = v.choose(1, 2)
    nr = v.nr = v.dim('regimes', 1, 3)
    K = v.load('ctbayes.switching.mcmc')
    th = v.freeze(v.array('thi', (nr, p)), 'parameters')
    lam = v.freeze(v.array('lam', (nr, nr)), 'generator matrix')
    S = SwiModel(v, p, nr, th)
    ct, g = K.Controls(v.real('opt'), v.real('q'), 1, v.int('batch_size', 1), v.choose(True, False)), v.gen()
    m = v.dim('sections', 1, 3)
    z0, h0, z1, h1, y1, tc, zr, hr, pruned = [object() for _ in range(9)]
    acc = v.func('accepted')
    S.proposal = (z1, h1)
    log = []

    class Regimes:
        def propose(self, lam_, t, ome):
            v.ensure('skeleton proposed under the current generator at the observations', lam_ is lam and t is S.mod.t and ome is g)
            return y1, tc

        def adapt(self, y, pr):
            v.ensure('adapts to the new regimes', y is pruned)
            v.ensure_eq('adapts to the share of sections exchanged', pr, M.mean(M.Arr((m,), lambda ix: ite(acc(ix[0]) > 0, 1, 0))))
            log.append('adapt')

    def split(z, h, t):
        w = [z0, z1].index(z)
        v.ensure('both paths are split at the breakpoints of the proposal', h is (h0, h1)[w] and t is tc)
        return M.SymList(m, lambda k: ('z%d' % w, k)), M.SymList(m, lambda k: ('h%d' % w, k))

    def section(thi, lam_, z_nil, h_nil, z_prime, h_prime, mod, ctrl, ome):
        v.ensure('the current state of the chain', thi is th and lam_ is lam and mod is S.mod and ctrl is ct)
        k = z_nil[1]
        for tk, nm in ((z_nil, 'z0'), (h_nil, 'h0'), (z_prime, 'z1'), (h_prime, 'h1')): is_(v, 'sections at the same place', tk, (nm, k))
        v.ensure('a generator of its own, spawned from the given one', conj([ome is not g and getattr(ome, 'parent', None) is g, eqv(ome.key[1], k)]))
        return acc(k) > 0, ('za', k), ('ha', k)

    def paste(z_part, h_part):
        i = v.index(m, 'section')
        for nm, part in (('za', z_part), ('ha', h_part)):
            n = part.n if isinstance(part, M.SymList) else len(part)
            v.ensure('all sections in order', eqv(n, m))
            e = part[i] if isinstance(part, M.SymList) else M.pick_any(list(part), i)
            v.ensure('all sections in order', e[0] == nm and eqv(e[1], i))
        log.append('paste')
        return zr, hr

    def prune(h):
        v.ensure('regimes of the new path', h is hr)
        return pruned
    v.contract('ctbayes.switching.mcmc:split_hidden', split); v.contract('ctbayes.switching.mcmc:paste_hidden', paste)
    v.contract('ctbayes.switching.mcmc:update_hidden_section', section); v.contract('ctbayes.switching.types:prune_anchorage', prune)
    z, h = v.call(K.update_hidden, th, lam, z0, h0, S.mod, ct, Regimes(), g, pool(v))
    v.ensure('the pasted path', z is zr and h is hr)
    v.ensure('pasted and adapted once', log == ['paste', 'adapt'])
    v.ensure('proposed for the current parameters and the proposed regimes', len(S.sampled) == 1 and S.sampled[0][0] is th and S.sampled[0][1] is y1 and S.sampled[0][2] is S.mod.t and S.sampled[0][3] is S.mod.vt and S.sampled[0][4] is g)


@unit('C26', functions=['ctbayes.ito.mcmc:update_joint', 'ctbayes.switching.mcmc:update_joint', 'ctbayes.switching.mcmc:resume_sampling'])
def sweep(v):
    """each sweep updates every block from the latest state of the others"""
    which = v.choose('ito', 'switching')
    K = v.load('ctbayes.%s.mcmc' % which)
    g = v.gen()
    obj = lambda **k: type('Obj', (), k)()
    log, th, z, h, lam = [], [object()], [object()], [object()], [object()]
    ct = K.Controls(v.real('opt'), v.real('q'), 1, v.int('batch_size', 1), True)
    mod, samplers, regimes = obj(hyper_lam=object()), object(), object()

    def new(l): l.append(object()); return l[-1]
    if which == 'ito':
        def params(*a):
            v.ensure('parameters from the latest path', a == (th[-1], z[-1], mod, ct, samplers, g)); log.append('parameters')
            return new(th), new(z)

        def path(*a):
            v.ensure('path from the latest parameters', a[:-1] == (th[-1], z[-1], mod, ct, g)); log.append('path')
            return new(z)
        v.contract('ctbayes.ito.mcmc:update_params', params); v.contract('ctbayes.ito.mcmc:update_sde', path)
        r = v.call(K.update_joint, th[0], z[0], mod, ct, samplers, g)
        v.ensure('latest state', r == (th[-1], z[-1])); v.ensure('every block once', log == ['parameters', 'path'])
        return

    def generator(*a):
        v.ensure('generator from the latest path', a == (h[-1], mod.hyper_lam, g)); log.append('generator')
        return new(lam)

    def params(*a):
        v.ensure('parameters from the latest path', a[:-1] == (th[-1], z[-1], h[-1], mod, ct, samplers, g)); log.append('parameters')
        return new(th), new(z)

    def hidden(*a):
        v.ensure('path from the latest parameters and generator', a[:-1] == (th[-1], lam[-1], z[-1], h[-1], mod, ct, regimes, g)); log.append('path')
        return new(z), new(h)
    S = 'ctbayes.switching.mcmc:'
    v.contract(S + 'update_generator', generator); v.contract(S + 'update_params', params); v.contract(S + 'update_hidden', hidden)
    once = ['generator', 'parameters', 'path']
    if v.choose(True, False):
        r = v.call(K.update_joint, th[0], lam[0], z[0], h[0], mod, ct, samplers, regimes, g)
        v.ensure('latest state', r == (th[-1], lam[-1], z[-1], h[-1])); v.ensure('every block once', log == once)
    else:
        it = v.call(K.resume_sampling, th[0], lam[0], z[0], h[0], mod, ct, samplers, regimes, g)
        for i in (1, 2):
            r = next(it)
            v.ensure('latest state', r == (th[-1], lam[-1], z[-1], h[-1])); v.ensure('every block once', log == once * i)


@unit('C26', functions=['ctbayes.switching.mcmc:sample_posterior', 'ctbayes.ito.mcmc:sample_posterior'])
def start(v):
    """the chain starts at the initial parameters with a path sampled under them, and every step is a sweep from there"""
    which = v.choose('ito', 'switching')
    K = v.load('ctbayes.%s.mcmc' % which)
    p = v.choose(1, 2)
    g = v.gen()
    ct = K.Controls(v.real('opt', ), v.real('q'), 1, v.int('batch_size', 1), True)
    v.assume(ct.opt_acc_prob > 0, ct.opt_acc_prob < 1)
    n = v.dim('observations', 2, 3)
    t, vt = v.sorted('t', n), v.vec('v', n)
    init = v.freeze(v.vec('thi', p), 'initial parameters')
    bounds = (v.vec('low', p), v.vec('high', p))
    for i in range(p): v.assume(at(bounds[0], i) < at(init, i), at(init, i) < at(bounds[1], i))
    z, h, y, samplers = [object()], [object()], None, []
    if which == 'ito':
        mod = type('Obj', (), dict(t=t, vt=vt, bounds_thi=bounds))()

        def aug(thi, t_, vt_, ome):
            v.ensure('path sampled under the initial parameters', t_ is t and vt_ is vt and ome is g)
            v.ensure_arr('path sampled under the initial parameters', M.asarr(thi), init)
            return z[0]
        mod.sample_aug = aug

        def step(thi, z_, mod_, ctrl, chains, ome):
            if not samplers: v.ensure_arr('starts at the initial parameters', M.asarr(thi), init)
            else: v.ensure('goes on from the latest state', thi is th[-1])
            v.ensure('goes on from the latest state', z_ is z[-1] and mod_ is mod and ctrl is ct and ome is g)
            v.ensure('one sampler per parameter, kept throughout', len(chains) == p and all(s is chains for s in samplers))
            samplers.append(chains); th.append(object()); z.append(object())
            return th[-1], z[-1]
        th = []
        v.contract('ctbayes.ito.mcmc:update_joint', step)
        it = v.call(K.sample_posterior, init, mod, ct, g)
        for i in range(2): v.ensure('yields the latest state', next(it) == (th[-1], z[-1]))
        return
    nr = v.dim('regimes', 1, 3)
    m = v.dim('jumps', 1, 3)
    lam = v.array('lam', (nr, nr))
    y = v.fn('ctbayes.mjplib.skeleton:Skeleton')(v.sorted('yt', m), v.vec('y', m, lambda i, x: [x >= 0, x < nr], sort='i'), at(t, n - 1))
    hyper = (object(), object())
    mod = type('Obj', (), dict(t=t, vt=vt, bounds_thi=bounds, hyper_lam=hyper))()

    def ev(*a):
        v.ensure('mean of the prior of the generator', a == hyper)
        return lam

    def forwards(fin_t, init_state, lam_, ome):
        v.ensure('regimes up to the last observation', conj([eqv(fin_t, at(t, n - 1)), init_state is None, lam_ is lam, ome is g]))
        return y

    def rows(thi, name):
        i = v.index(nr, 'row')
        v.ensure_len(name, thi, nr)
        for j in range(p): v.ensure_eq(name, M.asarr(thi).get((i, j)), at(init, j))

    def aug(thi, y_, t_, vt_, ome):
        rows(thi, 'every regime at the initial parameters')
        v.ensure('path sampled under the initial parameters and regimes', y_ is y and t_ is t and vt_ is vt and ome is g)
        return z[0], h[0]
    mod.sample_aug = aug
    st = []

    def step(thi, lam_, z_, h_, mod_, ctrl, chains, regimes, ome):
        if not st:
            rows(thi, 'starts at the initial parameters')
            v.ensure('starts at the mean generator', lam_ is lam)
        else: v.ensure('goes on from the latest state', (thi, lam_) == st[-1][:2] and chains is st[-1][2] and regimes is st[-1][3])
        v.ensure('goes on from the latest state', z_ is z[-1] and h_ is h[-1] and mod_ is mod and ctrl is ct and ome is g)
        v.ensure('one sampler per regime', eqv(chains.n if isinstance(chains, M.SymList) else len(chains), nr))
        st.append((object(), object(), chains, regimes)); z.append(object()); h.append(object())
        return st[-1][0], st[-1][1], z[-1], h[-1]
    v.contract('ctbayes.mjplib.inference:get_ev', ev); v.contract('ctbayes.mjplib.skeleton:sample_forwards', forwards)
    v.contract('ctbayes.switching.mcmc:update_joint', step)
    it = v.call(K.sample_posterior, init, mod, ct, g)
    for i in range(2): v.ensure('yields the latest state', next(it) == (st[-1][0], st[-1][1], z[-1], h[-1]))


@unit('C26', functions=['ctbayes.ito.mcmc:flip_param_precoin', 'ctbayes.switching.mcmc:flip_param_precoin', 'ctbayes.switching.mcmc:flip_hidden_precoin'])
def stationary(v):
    """lemma: flipping the pre-coin and then the two coins with equal weights leaves the same law stationary as the
    two coins with the weights themselves (both acceptance probabilities satisfy detailed balance for w1 p1 : w0 p0)"""
    w1, w0, p1, p0 = [v.real(x, pos=True) for x in ('w1', 'w0', 'p1', 'p0')]
    direct = lambda a, b, c, d: a * c / (a * c + b * d)
    pre = lambda a, b, c, d: (a / (a + b)) * (c / (c + d))
    for nm, f in (('two coins', direct), ('pre-flip and two coins', pre)):
        v.ensure_eq(nm + ': detailed balance', w0 * p0 * f(w1, w0, p1, p0), w1 * p1 * f(w0, w1, p0, p1))
