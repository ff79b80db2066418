"""C15: acceptance of layered bridges and the Poisson estimators of the path likelihood."""
from pyvc.runner import unit, eqv, conj, disj, implies, truth
from pyvc import core, npmodel as M
from pyvc.core import smin2, smax2, compare, slog
from ._seed import *

SK = EK


class Bounds:
    """eval_bounds_disc as a contract: bounds of the discrepancy on the interval it is asked for"""
    def __init__(self, v, finite=True):
        self.v, self.calls, self.finite = v, [], finite

    def __call__(self, lo, hi):
        v = self.v
        k = len(self.calls)
        c, l = v.real('cent%d' % k), v.real('lb%d' % k)
        u = v.real('ub%d' % k) if self.finite else float('inf')
        v.assume(c <= l)
        if self.finite: v.assume(l < u)
        self.calls.append((lo, hi, c, l, u))
        return c, l, u


def setup(v, finite=True):
    seed = fresh_seed(v)
    T = v.real('T', pos=True)
    a, b = v.real('a'), v.real('b')
    ops = affine_ops(v, T, a, b)
    B = Bounds(v, finite)
    return seed, T, ops, B


def box_holds_path(v, seed, T, ops, B):
    """the interval whose bounds are asked for contains the path wherever it may be inside its layer"""
    lo, hi = layer(seed)
    v.ensure('bounds are asked for once', len(B.calls) == 1)
    s, z = v.real('s_any'), v.real('z_any')
    v.assume(s >= 0, s <= 1, z >= lo, z <= hi)
    x = ops[1](s, z)[1]
    l, h = B.calls[0][0], B.calls[0][1]
    for zz, nm in ((lo, 'lower'), (hi, 'upper')):
        x0, x1 = ops[1](0, zz)[1], ops[1](1, zz)[1]
        v.ensure_eq('interval ends at the %s edge of the layer' % nm, l if nm == 'lower' else h, smin2(x0, x1) if nm == 'lower' else smax2(x0, x1))
    rt = core.ssqrt(T)
    e0, e1 = ops[1](s, lo)[1], ops[1](s, hi)[1]
    v.step('within the edges at its time', [rt > 0, z >= lo, z <= hi], [x >= e0, x <= e1], [x, e0, e1]) if False else None
    v.ensure('within the edges at its time', conj([(x - e0) >= 0, (e1 - x) >= 0]))
    v.ensure('the layer is inside the interval', conj([e0 >= l, e1 <= h]))


@unit('C15', functions=[SEED + 'bound_disc_path'])
def bound_one(v):
    """one interval over the whole duration"""
    seed, T, ops, B = setup(v)
    t, le, ue = v.call(SEED + 'bound_disc_path', seed, ops[0], ops[1], B, 1)
    v.ensure_len('two times', t, 2); v.ensure_len('one lower bound', le, 1); v.ensure_len('one upper bound', ue, 1)
    at = lambda z, i: M.asarr(z).get((i,))
    v.ensure_eq('from time zero', at(t, 0), 0); v.ensure_eq('to the duration', at(t, 1), T)
    v.ensure_eq('lower bound', at(le, 0), B.calls[0][3]); v.ensure_eq('upper bound', at(ue, 0), B.calls[0][4])
    box_holds_path(v, seed, T, ops, B)


@unit('C15', functions=[SEED + 'bound_disc_path'])
def bound_many(v):
    """one interval per gap between given times, or per equal part of the duration"""
    seed = fresh_seed(v)
    T = v.real('T', pos=True)
    ops = affine_ops(v, T, v.real('a'), v.real('b'))
    C, LB, UB = v.func('cent', 2), v.func('lb', 2), v.func('ub', 2)
    parts = v.choose(2, 3, None)
    if parts: n = parts + 1; given = parts
    else:
        n = v.dim('n', 2)
        given = v.freeze(v.sorted('t', n, lo=0, lo_strict=False, hi=T, hi_strict=False), 'times')
    t, le, ue = v.call(SEED + 'bound_disc_path', seed, ops[0], ops[1], lambda l, u: (C(l, u), LB(l, u), UB(l, u)), given)
    at = lambda z, i: M.asarr(z).get((i,))
    v.ensure_len('times', t, n); v.ensure_len('one lower bound per gap', le, n - 1); v.ensure_len('one upper bound per gap', ue, n - 1)
    k = v.index(n - 1, 'gap')
    j = v.index(n, 'time')
    v.ensure_eq('times', at(t, j), at(given, j) if not parts else T * j / parts)
    lo, hi = layer(seed)
    x = lambda i, z: ops[1](at(t, i) / T, z)[1]
    l, u = smin2(x(k, lo), x(k + 1, lo)), smax2(x(k, hi), x(k + 1, hi))
    v.ensure_eq('lower bound over the gap', at(le, k), LB(l, u))
    v.ensure_eq('upper bound over the gap', at(ue, k), UB(l, u))


@unit('C15', functions=[SEED + 'flip_poisson_coin', SEED + 'bound_disc_path'])
def coin(v):
    """accepted exactly when every point lies above the discrepancy, measured from the discounted lower bound"""
    seed, T, ops, B = setup(v)
    phi = v.func('phi')
    ome = v.gen()
    path = PathSpec(v, seed)
    path.ome, path.initial = ome, seed
    at = lambda t: phi(ops[1](t / T, path.Z(t / T))[1])
    low = lambda: B.calls[0][3]
    st = batches(v, path, lambda r, bx: conj([eqv(r, 1), len(bx) == 2, eqv(bx[0], B.calls[0][4] - low()), eqv(bx[1], T)]), None,
                 lambda n, A: v.forall('going on: every point of the batch lies above', n, lambda i: at(A.get((i, 1))) - low() <= A.get((i, 0))))
    bs = v.int('batch_size', 1)
    ok, w, new = v.call(SEED + 'flip_poisson_coin', seed, ops[0], ops[1], phi, B, ome, bs)
    v.ensure('bounds are asked for once', len(B.calls) == 1)
    v.ensure('returns the latest refined bridge', new is path.last)
    v.ensure_eq('log weight is minus the integral of the discounted bound', w, -T * low())
    if v.cases(ok): v.ensure('success only after all batches', 'n' not in st)
    else:
        v.ensure('failure only in a batch', 'n' in st)
        v.contradiction('failure only when a point lies below', lambda: v.known_all(st['n'], lambda i: at(st['a'].get((i, 1))) - low() <= st['a'].get((i, 0))))


@unit('C15', functions=[SEED + 'flip_poisson_coin', SEED + 'est_poisson_coin'])
def unbounded_discrepancy(v):
    """no finite bound: rejected, estimated as zero"""
    seed, T, ops, B = setup(v, finite=False)
    ome = v.gen()

    def boom(*a, **k): v.ensure('nothing is simulated', False)
    v.contract(MJS + 'sample_batch_ppp', boom); v.contract(MJS + 'sample_ppp', boom)
    ok, w, new = v.call(SEED + 'flip_poisson_coin', seed, ops[0], ops[1], v.func('phi'), B, ome)
    v.ensure('rejected', ok is False or not truth(ok)); v.ensure('same bridge', new is seed)
    v.ensure_eq('log weight', w, -T * B.calls[0][3])
    e, w, new = v.call(SEED + 'est_poisson_coin', seed, ops[0], ops[1], v.func('phi'), B, ome)
    v.ensure('estimate of the likelihood is zero', e == -INF); v.ensure('same bridge', new is seed)
    v.ensure_eq('log weight', w, -T * B.calls[1][3])


def ppp_once(v, gen, rate_box):
    """sample_ppp as a contract: any number of points with rate and box, in time order"""
    st = {}

    def ppp(intensity, bound, ome):
        bounds, om = bound, ome
        v.ensure('rate and box of the Poisson process', rate_box(intensity, bounds))
        v.ensure('the generator is passed on', om is gen)
        n = v.dim('points', 0)
        a = v.array('ppp', (n, len(bounds)), lambda ix, x: [x > 0])
        for d, b in enumerate(bounds): v.known_all(n, lambda i, d=d, b=b: a.get((i, d)) < b)
        v.known_pairs(n, lambda i, j: a.get((i, 0)) <= a.get((j, 0)))
        st['n'], st['a'] = n, a
        return a
    v.contract(MJS + 'sample_ppp', ppp)
    return st


@unit('C15', functions=[SEED + 'est_poisson_coin', SEED + 'bound_disc_path'])
def estimator(v):
    """sum of log(upper bound - discrepancy) less the log intensity per point"""
    seed, T, ops, B = setup(v)
    phi = v.func('phi')
    ome = v.gen()
    path = PathSpec(v, seed)
    path.ome, path.initial = ome, seed
    at = lambda t: phi(ops[1](t / T, path.Z(t / T))[1])
    I = lambda: B.calls[0][4] - B.calls[0][3]
    st = ppp_once(v, ome, lambda r, bx: conj([eqv(r, I()), len(bx) == 1, eqv(bx[0], T)]))
    v.run.assumed.add('the discrepancy stays below its upper bound at the points (C16)')
    e, w, new = v.call(SEED + 'est_poisson_coin', seed, ops[0], ops[1], phi_below(v, phi, lambda: B.calls[0][4]), B, ome)
    v.ensure('bounds are asked for once', len(B.calls) == 1)
    v.ensure_eq('log weight is minus the integral of the discounted bound', w, -T * B.calls[0][3])
    v.ensure('returns the refined bridge', new is path.last)
    want = M.Arr((st['n'],), lambda ix: slog(B.calls[0][4] - at(st['a'].get((ix[0], 0)))) - slog(I()))
    v.ensure_eq('estimate', e, want.sum() if hasattr(want, 'sum') else M.np_sum(want))


def phi_below(v, phi, ub):
    """the discrepancy with its upper bound (C16)"""
    def f(x):
        r = phi(x)
        a = M.asarr(r)
        if a.ndim == 1: v.known_all(a._shape[0], lambda i: a.get((i,)) < ub())
        return r
    return f


@unit('C15', functions=[SEED + 'integrate_disc_bound', SEED + 'bound_disc_path'])
def integral(v):
    """minus the integral of the lower bound over the duration"""
    seed, T, ops, B = setup(v)
    v.ensure_eq('integral', v.call(SEED + 'integrate_disc_bound', seed, ops[0], ops[1], B), -T * B.calls[0][3])
    box_holds_path(v, seed, T, ops, B)


@unit('C15', functions=[SEED + 'sample_raw_seed'])
def raw_seed(v):
    """a proposal is a layered bridge on the unit interval within the state bounds mapped to its scale"""
    T = v.real('T', pos=True)
    a, b = v.real('a'), v.real('b')
    lo = v.choose(-INF, v.real('lb_x'))
    hi = v.choose(INF, v.real('ub_x'))
    if lo != -INF: v.assume(lo < a, lo < b)
    if hi != INF: v.assume(hi > a, hi > b)
    ops, g, got = affine_ops(v, T, a, b), v.gen(), []

    def raw(fin_t, init_x, fin_x, bounds_x, ome):
        got.append((fin_t, init_x, fin_x, bounds_x))
        v.ensure('the generator is passed on', ome is g)
        return v.fn(EK + 'Skeleton')(*got_skel)
    got_skel = (v.vec('t', 3), v.vec('x', 3), v.real('tight'), v.real('loose'), v.real('hit'), [True, v.bool('hit_i')])
    v.contract(EK + 'sample_raw_skeleton', raw)
    z = v.call(SEED + 'sample_raw_seed', (lo, hi), ops[0], ops[1], g)
    v.ensure('one layered bridge', len(got) == 1)
    t, x, y, bd = got[0]
    v.ensure('on the unit interval from zero to zero', conj([eqv(t, 1), eqv(x, 0), eqv(y, 0)]))
    at = lambda z: M.asarr(z).item() if not isinstance(z, (int, float)) else z
    l, h = bd
    if lo == -INF: v.ensure('no lower bound', l == -INF)
    else:
        s = v.real('s'); v.assume(s >= 0, s <= 1)
        v.ensure('lower bound of the state holds at any time', conj([ops[1](0, l)[1] >= lo, ops[1](1, l)[1] >= lo]))
        v.ensure('lower bound is not tightened at both ends', disj([eqv(ops[1](0, l)[1], lo), eqv(ops[1](1, l)[1], lo)]))
    if hi == INF: v.ensure('no upper bound', h == INF)
    else:
        v.ensure('upper bound of the state holds at any time', conj([ops[1](0, h)[1] <= hi, ops[1](1, h)[1] <= hi]))
        v.ensure('upper bound is not tightened at both ends', disj([eqv(ops[1](0, h)[1], hi), eqv(ops[1](1, h)[1], hi)]))
    v.ensure('the parts of the bridge keep their roles', conj([z.s is got_skel[0], z.z is got_skel[1], z.tight_z is got_skel[2], z.loose_z is got_skel[3], z.hit_z is got_skel[4], z.hit_i is got_skel[5]]))


@unit('C15', functions=[SEED + 'sample_bridge'])
def bridges(v):
    """one arbitrary proposal: kept exactly when the coin succeeds and a uniform is below the relative weight"""
    T = v.real('T', pos=True)
    a, b = v.real('a'), v.real('b')
    ops, g = affine_ops(v, T, a, b), v.gen()
    inf_phi = v.real('inf_phi')

    def bounds(lo, hi):
        l, u = v.real('lb'), v.real('ub')
        v.assume(inf_phi <= l, l <= u)
        v.ensure('interval', lo <= hi)
        return inf_phi, l, u
    log = []

    def raw(bounds_x, norm_rsde, denorm_rsde, ome):
        v.ensure('the generator is passed on', ome is g)
        z = fresh_seed(v)
        log.append(['raw', z])
        return z

    def coin(seed, norm_rsde, denorm_rsde, eval_disc, eval_bounds_disc, ome, batch_size=2):
        v.ensure('the proposal is decided', log[-1][0] == 'raw' and seed is log[-1][1])
        v.ensure('the generator is passed on', ome is g)
        l = v.real('lb')
        v.assume(inf_phi <= l)
        r = v.bool('success'), -T * l, fresh_seed(v, like=seed)
        log.append(['coin', r])
        return r
    v.contract(SEED + 'sample_raw_seed', raw); v.contract(SEED + 'flip_poisson_coin', coin)

    def decided(kept):
        v.ensure('one proposal', len(log) == 2 and log[1][0] == 'coin')
        ok, w, new = log[1][1]
        u = v.drawn('U')
        p = sexp(w + T * inf_phi)
        if kept: v.ensure('kept only if the coin succeeded and the uniform is below the weight', conj([ok, len(u) == 1, u[-1].value <= p if u else False]))
        else: v.ensure('dropped only if the coin failed or the uniform is above the weight', disj([core.lnot(ok) if hasattr(core, 'lnot') else ok == False, conj([len(u) == 1, u[-1].value >= p if u else False])]))
        v.ensure('weight is a probability', w + T * inf_phi <= 0)
    v.on_fallthrough(lambda loop, carried: decided(False))
    n = v.int('max_props', 1)
    it = v.call(SEED + 'sample_bridge', (-INF, INF), ops[0], ops[1], v.func('phi'), bounds, g, n)
    o = v.catch(next, it)
    if o.exc is not None:
        v.ensure('exhaustion raises the budget error', type(o.exc).__name__ == 'BudgetConstraintError')
        v.ensure('only exhaustion raises', len(log) == 0)
        return
    decided(True)
    v.ensure('the accepted refined bridge is returned', o.value is log[1][1][2])
    del log[:]


# ---------------------------------------------------------------- layered bridges on their own scale
def fresh_skel(v, like=None, T=None):
    n = v.int('support', 2)
    t, x = v.vec('t', n), v.vec('x', n)
    if like is not None:
        v.assume(eqv(t.get((n - 1,)), like.t.get((like.t._shape[0] - 1,))))
        return v.fn(EK + 'Skeleton')(t, x, like.tight_x, like.loose_x, like.hit_x, like.hit_i)
    v.assume(t.get((0,)) == 0, t.get((n - 1,)) > 0)
    e0, e1 = v.real('tight'), v.real('loose')
    v.assume(disj([e0 < e1, e1 < e0]))
    return v.fn(EK + 'Skeleton')(t, x, e0, e1, v.real('hit'), None)


class SkelPath(PathSpec):
    """interpolate_skeleton as a contract: one fixed but arbitrary path"""
    def __init__(self, v, skel, gen):
        self.v, self.Z, self.last, self.initial, self.ome = v, v.func('X'), skel, skel, gen

        def interp(skel, new_t, ome):
            v.ensure('refinement starts from the latest refined path', skel is self.last)
            v.ensure('the generator is passed on', ome is self.ome)
            new_t = M.asarr(new_t)
            v.forall_pairs('requested times come in order', new_t._shape[0], lambda i, j: compare('<=', new_t.get((i,)), new_t.get((j,))))
            self.last = fresh_skel(v, like=self.last)
            return self.last, self.Z(new_t)
        v.contract(EK + 'interpolate_skeleton', interp)

    def is_skel(self, x): return isinstance(x, self.v.fn(EK + 'Skeleton'))

    def havoc(self, name, val):
        if self.is_skel(val):
            self.last = fresh_skel(self.v, like=val)
            return self.last
        return NotImplemented

    def exit(self, carried):
        for x in carried.values():
            if self.is_skel(x): self.last = x

    def check_carried(self, carried):
        for k, x in carried.items():
            if self.is_skel(x) and x is not self.initial: self.v.ensure('the refined path is carried to the next batch', x is self.last)


def skel_setup(v):
    sk = fresh_skel(v)
    T = sk.t.get((sk.t._shape[0] - 1,))
    g = v.gen()
    return sk, T, g, SkelPath(v, sk, g), Bounds(v), v.func('phi')


def layer_box(v, sk, B):
    v.ensure('bounds are asked for once', len(B.calls) == 1)
    v.ensure('bounds are asked for the layer', conj([eqv(B.calls[0][0], smin2(sk.tight_x, sk.loose_x)), eqv(B.calls[0][1], smax2(sk.tight_x, sk.loose_x))]))


@unit('C15', functions=[EK + 'flip_poisson_coin'])
def skeleton_coin(v):
    """accepted exactly when every point lies above the discrepancy, measured from the global lower bound"""
    sk, T, g, path, B, phi = skel_setup(v)
    at = lambda t: phi(path.Z(t))
    low = lambda: B.calls[0][2]
    st = batches(v, path, lambda r, bx: conj([eqv(r, 1), len(bx) == 2, eqv(bx[0], B.calls[0][4] - low()), eqv(bx[1], T)]), None,
                 lambda n, A: v.forall('going on: every point of the batch lies above', n, lambda i: at(A.get((i, 1))) - low() <= A.get((i, 0))))
    ok, new = v.call(EK + 'flip_poisson_coin', sk, phi, B, g, v.int('batch_size', 1))
    layer_box(v, sk, B)
    v.ensure('returns the latest refined path', new is path.last)
    if v.cases(ok): v.ensure('success only after all batches', 'n' not in st)
    else:
        v.ensure('failure only in a batch', 'n' in st)
        v.contradiction('failure only when a point lies below', lambda: v.known_all(st['n'], lambda i: at(st['a'].get((i, 1))) - low() <= st['a'].get((i, 0))))


@unit('C15', functions=[EK + 'est_poisson_coin'])
def skeleton_estimator(v):
    """per point the log of upper bound minus discrepancy less the log intensity, and the exponential correction"""
    sk, T, g, path, B, phi = skel_setup(v)
    I = lambda: B.calls[0][4] - B.calls[0][3]
    st = ppp_once(v, g, lambda r, bx: conj([eqv(r, I()), len(bx) == 1, eqv(bx[0], T)]))
    v.run.assumed.add('the discrepancy stays below its upper bound at the points (C16)')
    e, new = v.call(EK + 'est_poisson_coin', sk, phi_below(v, phi, lambda: B.calls[0][4]), B, g)
    layer_box(v, sk, B)
    v.ensure('returns the refined path', new is path.last)
    a = st['a']
    want = M.Arr((st['n'],), lambda ix: slog(B.calls[0][4] - phi(path.Z(a.get((ix[0], 0))))) - slog(I()))
    cent, low, up = B.calls[0][2:]
    # E[exp(sum)] = exp(-I T + int (up - phi)), so that the correction has to be (I - up + cent) T
    v.ensure_eq('estimate', e, M.np_sum(want) + (I() - up + cent) * T)


@unit('C15', kind='lemma')
def unbiasedness(v):
    """exponent of the mean of the estimators: -I T + int (up - phi) + correction is minus the integral of phi measured from the discounted bound"""
    T, S = v.real('T', pos=True), v.real('int_phi')
    c, l, u = v.real('cent'), v.real('low'), v.real('up')
    v.assume(c <= l, l < u)
    I = u - l
    mean = -I * T + (u * T - S)
    v.ensure_eq('estimator with the correction, measured from the global bound', mean + (I - u + c) * T, -(S - c * T))
    v.ensure_eq('estimator with the discounted weight', mean + (-T * l), -S)


@unit('C15', functions=[EK + 'sample_skeleton'])
def skeletons(v):
    """one arbitrary proposal: returned exactly when the coin succeeds, each with its own end point"""
    T, x0, g = v.real('T', pos=True), v.real('x0'), v.gen()
    phi, B = v.func('phi'), object()
    bounds_x, ends, log = (v.real('lb'), v.real('ub')), [], []

    class Ends:
        def __iter__(self): return self
        def __next__(self):
            ends.append(v.real('end'))
            return ends[-1]

    def raw(fin_t, init_x, fin_x, bounds_x, ome):
        v.ensure('proposal over the duration from the start to the end drawn for it', conj([eqv(fin_t, T), eqv(init_x, x0), len(ends) >= 1, eqv(fin_x, ends[-1]) if ends else False]))
        v.ensure('state bounds', bounds_x is bx)
        v.ensure('the generator is passed on', ome is g)
        log.append(['raw', fresh_skel(v)])
        return log[-1][1]

    def coin(skel, eval_disc, eval_bounds_disc, ome, batch_size=2):
        v.ensure('the proposal is decided', log[-1][0] == 'raw' and skel is log[-1][1])
        v.ensure('discrepancy, bounds and generator are passed on', eval_disc is phi and eval_bounds_disc is B and ome is g)
        log.append(['coin', v.bool('success'), fresh_skel(v, like=skel)])
        return log[-1][1], log[-1][2]
    bx = bounds_x
    v.contract(EK + 'sample_raw_skeleton', raw); v.contract(EK + 'flip_poisson_coin', coin)

    def once():
        v.ensure('one proposal, one end, one decision', len(log) == 2 and log[1][0] == 'coin' and len(ends) == 1)
    v.on_fallthrough(lambda loop, carried: (once(), v.ensure('a proposal is dropped only when the coin fails', log[1][1] == False)))
    o = v.catch(next, v.call(EK + 'sample_skeleton', T, x0, bounds_x, Ends(), phi, B, g, v.int('max_props', 1)))
    if o.exc is not None:
        v.ensure('exhaustion raises the budget error', type(o.exc).__name__ == 'BudgetConstraintError')
        v.ensure('only exhaustion raises', len(log) == 0)
        return
    once()
    v.ensure('returned only when the coin succeeds', log[1][1])
    v.ensure('the accepted refined path is returned', o.value is log[1][2])
