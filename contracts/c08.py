"""C08: samplers of the minimum of a Brownian bridge."""
from pyvc.runner import unit, eqv, conj, disj, implies, iff
from pyvc import core, npmodel as M
from pyvc.core import sexp, smin2, smax2, compare, ssqrt
from ._spec import *


class Ppf:
    """ppf_brownbr_min as a contract (C07): inverts the conditioned distribution function, inside the bounds"""
    def __init__(self, v): self.v, self.calls = v, []

    def __call__(self, p, fin_t, init_x, fin_x, lb_min_x=None, ub_min_x=None):
        v = self.v
        T, a, b = fin_t, init_x, fin_x
        l = None if lb_min_x is None or M.is_num(M.numify(lb_min_x)) and lb_min_x == -INF else lb_min_x
        mn = smin2(a, b)
        h = mn if ub_min_x is None else ub_min_x
        v.ensure('quantile is asked for a probability', conj([p >= 0, p <= 1]))
        v.ensure('quantile is asked with ordered bounds', conj([T > 0, h <= a, h <= b] + ([l < h] if l is not None else [])))
        r = v.real('min%d' % len(self.calls))
        Fl, Fh = F_min(l, T, a, b) if l is not None else 0, F_min(h, T, a, b)
        v.assume(r <= h)
        if l is not None: v.assume(r >= l)
        v.assume(compare('==', F_min(r, T, a, b) - Fl, p * (Fh - Fl)))
        self.calls.append((p, T, a, b, l, h, r))
        return r


def setup(v):
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    lo, hi = v.choose((False, False), (True, True), (True, False), (False, True))
    mn = smin2(a, b)
    l, h = v.real('l') if lo else None, v.real('h') if hi else None
    if h is not None: v.assume(h <= a, h <= b)
    if l is not None: v.assume(l < h if h is not None else l < mn)
    return T, a, b, l, h, mn


def hitting_time(v, t, T, a, b, m, first, value):
    """t is the time of the minimum m: T / (1 + w), w inverse Gaussian with mean (b-m)/(a-m) and shape (b-m)^2/T
    or 1/w with mean (a-m)/(b-m) and shape (a-m)^2/T"""
    v.ensure_eq('time of the minimum', t, T / (1 + value) if first else T / (1 + 1 / value))
    v.ensure('attained strictly inside the interval', conj([t > 0, t < T]))


@unit('C08', functions=[H + 'sample_brownbr_min'])
def minimum(v):
    """the value by the quantile of a uniform; the time by the mixture of inverse Gaussians given the value"""
    T, a, b, l, h, mn = setup(v)
    q = Ppf(v)
    v.contract(H + 'ppf_brownbr_min', q)
    t, m = v.call(H + 'sample_brownbr_min', T, a, b, l, h, v.gen())
    v.ensure('one quantile', len(q.calls) == 1)
    U, W = v.drawn('U'), v.drawn('wald')
    v.ensure('two uniforms and one inverse Gaussian', len(U) == 2 and len(W) == 1 and len(v.drawn()) == 3)
    p, T_, a_, b_, l_, h_, r = q.calls[0]
    own = [u for u in U if v.entails(eqv(u.value, p))]
    v.ensure('quantile of a uniform draw', len(own) >= 1)
    other = [u for u in U if u is not own[0]][0]
    v.ensure('of this bridge', conj([eqv(T_, T), disj([conj([eqv(a_, a), eqv(b_, b)]), conj([eqv(a_, b), eqv(b_, a)])])]))
    v.ensure('under these bounds', conj([(l_ is None) == (l is None)] + ([eqv(l_, l)] if l is not None else []) + [eqv(h_, h if h is not None else mn)]))
    v.ensure_eq('value', m, r)
    v.ensure('not above either end', conj([m <= a, m <= b]))
    if l is not None: v.ensure('not below the lower bound', m >= l)
    if h is not None: v.ensure('not above the upper bound', m <= h)
    v.hint(conj([m < a, m < b]))
    v.ensure('below both ends', conj([m < a, m < b]))
    U2, mean, scale, w = other.value, W[0].params['mean'], W[0].params['scale'], W[0].value
    k = v.define('k', (b - m) / (a - m))
    v.ensure('ratio of the distances', conj([k > 0, eqv(k * (a - m), b - m)]))
    first = v.cases(U2 * (1 + k) < 1)
    v.ensure('branch by the uniform', conj([mean > 0, scale > 0]))
    v.ensure_eq('mean of the inverse Gaussian', mean, (b - m) / (a - m) if first else (a - m) / (b - m))
    v.ensure_eq('shape of the inverse Gaussian', scale, (b - m) * (b - m) / T if first else (a - m) * (a - m) / T)
    hitting_time(v, t, T, a, b, m, first, w)


@unit('C08', functions=[TR + 'gen_seeded_brownbr_min'])
def seeded_minimum(v):
    """the same from given uniforms and a chi-square value: the inverse Gaussian by its two-root transform"""
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    q = Ppf(v)
    v.contract(H + 'ppf_brownbr_min', q)
    u = [v.real('u%d' % i) for i in range(3)]
    v.assume(*[conj([z > 0, z < 1]) for z in u])
    r2 = v.real('r2', pos=True)
    t, m = v.call(TR + 'gen_seeded_brownbr_min', tuple(u), r2, T, a, b)
    v.ensure('nothing is drawn', not v.drawn())
    v.ensure('one quantile', len(q.calls) == 1)
    p, T_, a_, b_, l_, h_, r = q.calls[0]
    v.ensure('quantile of the first uniform', eqv(p, u[0]))
    v.ensure('of this bridge, unbounded', conj([eqv(T_, T), disj([conj([eqv(a_, a), eqv(b_, b)]), conj([eqv(a_, b), eqv(b_, a)])]), l_ is None, eqv(h_, smin2(a, b))]))
    v.ensure_eq('value', m, r)
    v.ensure('below both ends', conj([m < a, m < b]))
    A, B = v.define('A', a - m), v.define('B', b - m)
    first = v.cases(u[2] * (A + B) < A)
    mu, lam = v.define('mu', (b - m) / (a - m) if first else (a - m) / (b - m)), v.define('lam', ((b - m) if first else (a - m)) ** 2 / T)
    v.ensure('inside the interval', conj([t > 0, t < T]))
    w = v.define('w', T / t - 1 if first else 1 / (T / t - 1))
    # w solves lam (w - mu)^2 = mu^2 r2 w; the smaller root c with probability mu / (mu + c), else the larger one
    v.ensure('a root', conj([w > 0, eqv(lam * (w - mu) * (w - mu), mu * mu * r2 * w)]))
    if v.cases(w <= mu): v.ensure('smaller root with probability mu over mu plus the root', u[1] * (mu + w) <= mu)
    else: v.ensure('larger root otherwise', u[1] * (mu + mu * mu / w) >= mu)


@unit('C08', functions=[H + 'sample_layerbr_min'])
def layered_minimum(v):
    """proposals by sample_brownbr_min, rejected exactly when a side of the minimum is decided to cross the bound"""
    T, a, b, l, h, mn = setup(v)
    bounded = v.choose(True, False)
    ub = v.real('ub') if bounded else None
    if bounded: v.assume(ub >= a, ub >= b)
    ome = v.gen()
    props, esc = [], []

    def minimum(fin_t, init_x, fin_x, lb_min_x=None, ub_min_x=None, ome_=None):
        v.ensure('proposal for this bridge under these bounds', conj([eqv(fin_t, T), eqv(init_x, a), eqv(fin_x, b), same(lb_min_x, l, -INF), same(ub_min_x, h, mn)]))
        v.ensure('from the given generator', ome_ is ome)
        t, m = v.real('t%d' % len(props)), v.real('m%d' % len(props))
        v.assume(t > 0, t < T, m < a, m < b)
        if l is not None: v.assume(m >= l)
        if h is not None: v.assume(m <= h)
        props.append((t, m))
        return t, m

    def escape(fin_t, init_x, fin_x, ue_x, ub_x=None, seed=None, ome_=None):
        v.ensure('decided from the given generator by its own seed', seed is None and ome_ is ome)
        v.ensure('from the minimum or to it, without a known bound', ub_x is None)
        if M.is_num(fin_x) and fin_x == 0: init_x, fin_x = fin_x, init_x
        v.ensure('one end at the minimum', eqv(init_x, 0))
        t, m = props[-1]
        left = conj([eqv(fin_t, t), eqv(fin_x, a - m)]); right = conj([eqv(fin_t, T - t), eqv(fin_x, b - m)])
        v.ensure('a side of the minimum', disj([left, right]))
        v.ensure('crossing the upper bound', eqv(ue_x, ub - m))
        r = v.bool('esc%d' % len(esc))
        esc.append((len(props) - 1, left, right, r))
        return r
    v.contract(H + 'sample_brownbr_min', lambda fin_t, init_x, fin_x, lb_min_x=None, ub_min_x=None, ome=None: minimum(fin_t, init_x, fin_x, lb_min_x, ub_min_x, ome))
    v.contract(H + 'sample_bessel3br_esc', lambda fin_t, init_x, fin_x, ue_x, ub_x=None, seed=None, ome=None: escape(fin_t, init_x, fin_x, ue_x, ub_x, seed, ome))
    def rejected(loop, carried):
        v.ensure('rejected only when a side crosses', disj([e[3] for e in esc if e[0] == len(props) - 1]) if bounded else False)
    v.on_fallthrough(rejected)
    n = v.int('max_props', 1)
    o = v.catch(H + 'sample_layerbr_min', T, a, b, ub, l, h, ome, n)
    if o.exc is not None:
        v.ensure('budget error', type(o.exc).__name__ == 'BudgetConstraintError')
        return      # after proposals that were all rejected (checked above)
    t, m = o.value
    v.ensure('returns the latest proposal', conj([eqv(t, props[-1][0]), eqv(m, props[-1][1])]))
    if bounded:
        mine = [e for e in esc if e[0] == len(props) - 1]
        v.ensure('neither side crosses', conj([neg(e[3]) for e in mine] + [len(mine) >= 2]))
        v.ensure('both sides are decided', conj([disj([e[1] for e in mine]), disj([e[2] for e in mine])]))
    else: v.ensure('nothing to decide', not esc)


def neg(x):
    import z3
    from pyvc.runner import truth
    return core.Sym(z3.Not(truth(x)))


def same(x, y, default):
    """an optional bound: None stands for the default"""
    inf = lambda z: M.is_num(M.numify(z)) and abs(z) == INF
    x, y = default if x is None else x, default if y is None else y
    if inf(x) or inf(y): return inf(x) and inf(y) and x == y
    return eqv(x, y)
