"""C10: layers of a bridge and the sampled layer."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from pyvc.core import sexp, smin2, smax2, compare
from ._spec import *
from .c08 import Ppf, neg


def closed(v):
    """ppf_brownbr_min as a contract (C07) in closed form"""
    def ppf(p, fin_t, init_x, fin_x, lb_min_x=None, ub_min_x=None):
        T, a, b = fin_t, init_x, fin_x
        v.ensure('quantile is asked for a probability', conj([p > 0, p <= 1]))
        v.ensure('no upper bound', ub_min_x is None)
        l = None if lb_min_x is None or M.is_num(M.numify(lb_min_x)) and lb_min_x == -INF else lb_min_x
        if l is not None: v.ensure('bound below the ends', conj([l < a, l < b]))
        Fl = sexp(-2 * (a - l) * (b - l) / T) if l is not None else 0
        return (a + b - core.ssqrt((b - a) ** 2 - 2 * T * core.slog(p * (1 - Fl) + Fl))) / 2
    v.contract(H + 'ppf_brownbr_min', ppf)


def setup(v, bounds=None):
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    lo, hi = bounds if bounds is not None else v.choose((False, False), (True, True), (True, False), (False, True))
    lb, ub = v.real('lb') if lo else -INF, v.real('ub') if hi else INF
    if lo: v.assume(lb < a, lb < b)
    if hi: v.assume(ub > a, ub > b)
    return T, a, b, lb, ub


@unit('C10', functions=[L + 'compute_edges'])
def layer_zero(v):
    T, a, b, lb, ub = setup(v)
    le, ue = v.call(L + 'compute_edges', 0, T, a, b, lb, ub)
    v.ensure_eq('lower edge is the smaller end', le, smin2(a, b)); v.ensure_eq('upper edge is the larger end', ue, smax2(a, b))


def quantiles(v):
    q = Ppf(v)
    v.contract(H + 'ppf_brownbr_min', q)
    return q


@unit('C10', functions=[L + 'compute_edges'])
def layer_edges(v):
    """an edge is where the bridge, known to stay within the bound, goes beyond with probability 1/(i^2+1)"""
    T, a, b, lb, ub = setup(v)
    quantiles(v)
    i = v.int('i', 1)
    le, ue = v.call(L + 'compute_edges', i, T, a, b, lb, ub)
    v.ensure('contains the ends', conj([le <= a, le <= b, ue >= a, ue >= b]))
    v.hint(conj([le < a, le < b, ue > a, ue > b]))
    v.ensure('contains the ends strictly', conj([le < a, le < b, ue > a, ue > b]))
    lo, hi = lb != -INF, ub != INF
    if lo: v.ensure('not below the lower bound', le >= lb)
    if hi: v.ensure('not above the upper bound', ue <= ub)
    Fl = sexp(-2 * (a - lb) * (b - lb) / T) if lo else 0
    Fu = sexp(-2 * (ub - a) * (ub - b) / T) if hi else 0
    Gl, Gu = sexp(-2 * (a - le) * (b - le) / T), sexp(-2 * (ue - a) * (ue - b) / T)
    # the probability of being left below (above), by the bridge that stays within the bound: 1 / (i^2 + 1)
    v.ensure('probability of leaving below', eqv(Gl - Fl, (1 - Fl) / (i * i + 1)))
    v.ensure('probability of leaving above', eqv(Gu - Fu, (1 - Fu) / (i * i + 1)))


@unit('C10', functions=[L + 'compute_edges'])
def layers_grow(v):
    """a layer with a larger number is strictly larger"""
    T, a, b, lb, ub = setup(v)
    lo, hi = lb != -INF, ub != INF
    i = v.int('i', 1)
    j = v.int('j', 1)
    v.assume(j > i)
    Fl = sexp(-2 * (a - lb) * (b - lb) / T) if lo else 0
    Fu = sexp(-2 * (ub - a) * (ub - b) / T) if hi else 0
    q = quantiles(v)
    (l0, u0), (l1, u1) = [v.call(L + 'compute_edges', k, T, a, b, lb, ub) for k in (i, j)]
    for (x0, x1, F, s, e0, e1) in ((l0, l1, Fl, 'below', lambda e: a - e, lambda e: b - e), (u0, u1, Fu, 'above', lambda e: e - a, lambda e: e - b)):
        p, r = v.define('p' + s, 1 / (i * i + 1)), v.define('r' + s, 1 / (j * j + 1))
        v.ensure('probabilities fall ' + s, conj([p > r, r > 0]))
        f = v.define('F' + s, F)
        if not M.is_num(F): v.ensure('bound has room ' + s, f < 1)
        A, B = v.define('P0' + s, sexp(-2 * e0(x0) * e1(x0) / T)), v.define('P1' + s, sexp(-2 * e0(x1) * e1(x1) / T))
        v.ensure('ends ' + s, conj([e0(x0) > 0, e1(x0) > 0, e0(x1) > 0, e1(x1) > 0]))
        v.ensure('escape probabilities ' + s, conj([eqv(A - f, p * (1 - f)), eqv(B - f, r * (1 - f))]))
        v.step('escape probability falls ' + s, [eqv(A - f, p * (1 - f)), eqv(B - f, r * (1 - f)), p > r, f < 1], B < A)
        P0, P1 = e0(x0) * e1(x0), e0(x1) * e1(x1)
        v.ensure('exponents ' + s, P1 > P0)
        d0, d1, g0, g1 = v.define('d0' + s, e0(x0)), v.define('d1' + s, e1(x0)), v.define('g0' + s, e0(x1)), v.define('g1' + s, e1(x1))
        v.step('edges grow ' + s, [g0 * g1 > d0 * d1, eqv(g0 - g1, d0 - d1), d0 > 0, d1 > 0, g0 > 0, g1 > 0], g0 > d0)
    v.ensure('strictly larger', conj([l1 < l0, u1 > u0]))


@unit('C10', functions=[L + 'compute_edges'])
def layers_symmetric(v):
    """for bounds symmetric around the middle of the ends, edges are as well"""
    bounds = v.choose((False, False), (True, True))
    T, a, b, lb, ub = setup(v, bounds)
    if bounds[0]: v.assume(eqv(lb + ub, a + b))
    closed(v)
    i = v.int('i', 1)
    le, ue = v.call(L + 'compute_edges', i, T, a, b, lb, ub)
    v.ensure('symmetric', eqv(le + ue, a + b))


class Edges:
    """compute_edges as a contract: nested intervals"""
    def __init__(self, v, T, a, b, lb, ub):
        self.v, self.arg = v, (T, a, b, lb, ub)
        self.lo, self.hi, self.asked = v.func('lower_edge'), v.func('upper_edge'), []

    def __call__(self, i, fin_t, init_x, fin_x, lb_x=-INF, ub_x=INF, pow=2):
        v, (T, a, b, lb, ub) = self.v, self.arg
        v.ensure('layers of this bridge', conj([eqv(fin_t, T), eqv(init_x, a), eqv(fin_x, b), eqv(lb_x, lb), eqv(ub_x, ub), i >= 0]))
        lo, hi = self.lo(i), self.hi(i)
        v.assume(implies(conj([i > 0] if isinstance(i, core.Sym) else [i > 0]), conj([lo < a, lo < b, hi > a, hi > b])))
        v.assume(implies(conj([eqv(i, 0)]), conj([eqv(lo, smin2(a, b)), eqv(hi, smax2(a, b))])))
        self.asked.append((i, lo, hi))
        return lo, hi


@unit('C10', functions=[L + 'sample_layer'])
def sampled_layer(v):
    """the first layer the bridge is decided not to escape; one seed decides all"""
    T, a, b, lb, ub = setup(v)
    lo, hi = lb != -INF, ub != INF
    E = Edges(v, T, a, b, lb, ub)
    v.contract(L + 'compute_edges', E)
    v.contract(H + 'cdf_brownbr_min', lambda min_x, fin_t, init_x, fin_x, lb_min_x=None, ub_min_x=None: F_min(min_x, fin_t, init_x, fin_x) if lb_min_x is None and ub_min_x is None else v.real('cdf'))
    ome = v.gen()
    dec = []

    def escape(fin_t, init_x, fin_x, ue_x, ub_x=None, seed=None, ome=None):
        v.ensure('this bridge, without a known bound', conj([eqv(fin_t, T), eqv(fin_x - init_x, b - a), ub_x is None]))
        v.ensure('a seed is given', seed is not None)
        m = a - init_x
        r = v.bool('esc%d' % len(dec))
        dec.append((m - ue_x, m + ue_x, seed, r, len(E.asked)))
        return r
    v.contract(H + 'sample_brownbr_esc', escape)

    def uniform():
        us = v.drawn('U')
        v.ensure('a uniform is drawn', len(us) >= 1 and len(v.drawn()) == len(us))
        return us[-1].value

    def seed_ok(u):
        z = uniform()
        if lo and hi: v.ensure_eq('the seed is the uniform', u, z)
        else:
            F = F_min(lb, T, a, b) if lo else F_min(-ub, T, -a, -b) if hi else 0
            v.ensure_eq('the seed is uniform above the probability of leaving the bound', u, F + (1 - F) * z)

    def fell(loop, carried):
        d = dec[-1]
        v.ensure('goes on after an escape', d[3])
        if E.asked: v.ensure('from the layer looked at', layer_decided(d))
        else: v.ensure('from the bounds', conj([eqv(d[0], lb), eqv(d[1], ub)]))
        seed_ok(d[2])

    def layer_decided(d):
        i, e0, e1 = E.asked[-1]
        return conj([eqv(d[0], e0), eqv(d[1], e1)])
    v.on_fallthrough(fell)
    o = v.catch(L + 'sample_layer', T, a, b, lb, ub, ome, v.int('max_props', 1))
    if o.exc is not None:
        v.ensure('budget error', type(o.exc).__name__ == 'BudgetConstraintError')
        v.ensure('only for two bounds', lo and hi)
        return
    l = o.value
    v.ensure('at least one', l >= 1)
    d = dec[-1]
    v.ensure_eq('layer looked at', E.asked[-1][0], l)
    v.ensure('decided not to escape the layer', conj([layer_decided(d), neg(d[3])]))
    k = v.c.loop.index
    if k is not None: v.ensure_eq('layers are looked at in turn, from number one', l, k + 1)
    seed_ok(d[2])
    if lo and hi:
        v.ensure('the same seed keeps it within the bounds', conj([len(dec) == 2, eqv(dec[0][0], lb), eqv(dec[0][1], ub), neg(dec[0][3]), eqv(dec[0][2], d[2])]))


@unit('C10', functions=[L + 'sample_anchor'])
def anchor(v):
    """sectors between the sampled layer and the one before it"""
    T, a, b, lb, ub = setup(v)
    ome = v.gen()
    E = Edges(v, T, a, b, lb, ub)
    v.contract(L + 'compute_edges', E)
    n = v.int('layer', 1)

    def layer(fin_t, init_x, fin_x, lb_x=-INF, ub_x=INF, ome_=None, max_props=None):
        v.ensure('layer of this bridge', conj([eqv(fin_t, T), eqv(init_x, a), eqv(fin_x, b), eqv(lb_x, lb), eqv(ub_x, ub)]))
        v.ensure('from the generator', ome_ is ome)
        return n
    v.contract(L + 'sample_layer', lambda fin_t, init_x, fin_x, lb_x=-INF, ub_x=INF, ome=None, max_props=None: layer(fin_t, init_x, fin_x, lb_x, ub_x, ome))
    ps = []

    def cdf(min_x, fin_t, init_x, fin_x, lb_min_x=None, ub_min_x=None):
        v.ensure('edges in order', min_x >= lb_min_x if lb_min_x is not None else True)
        p = v.real('p%d' % len(ps)); v.assume(p > 0, p <= 1); ps.append(p)
        return p
    v.contract(H + 'cdf_brownbr_min', cdf)
    # layers are nested (layers_grow)
    v.assume(E.lo(n) < E.lo(n - 1), E.hi(n) > E.hi(n - 1))
    lo, s0, s1 = v.call(L + 'sample_anchor', T, a, b, lb, ub, ome)
    v.ensure('lower sector', conj([eqv(s0[0], E.lo(n)), eqv(s0[1], E.lo(n - 1))]))
    v.ensure('upper sector', conj([eqv(s1[0], E.hi(n - 1)), eqv(s1[1], E.hi(n))]))
    v.ensure('sectors surround the ends', conj([s0[0] < s0[1], s0[1] <= smin2(a, b), smax2(a, b) <= s1[0], s1[0] < s1[1]]))


@unit('C10', functions=[L + 'sample_edges'])
def edges_of_a_path(v):
    """the minimum lies in its sector, the level to hit and the upper bound are the sector above; each side of the minimum
    is marked with its own decision, and paths that reach both sectors are kept half of the time"""
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    l0, l1, h0, h1 = v.real('l0'), v.real('l1'), v.real('h0'), v.real('h1')
    v.assume(l0 < l1, l1 <= a, l1 <= b, h0 >= a, h0 >= b, h0 < h1)
    ome = v.gen()
    props, esc = [], []

    def minimum(fin_t, init_x, fin_x, ub_x=None, lb_min_x=None, ub_min_x=None, ome_=None):
        v.ensure('minimum of this bridge below the upper bound, in its sector', conj([eqv(fin_t, T), eqv(init_x, a), eqv(fin_x, b), ub_x is not None, eqv(ub_x, h1), lb_min_x is not None, eqv(lb_min_x, l0), ub_min_x is not None, eqv(ub_min_x, l1)]))
        v.ensure('from the generator', ome_ is ome)
        t, m = v.real('t%d' % len(props)), v.real('m%d' % len(props))
        v.assume(t > 0, t < T, m < a, m < b, m >= l0, m <= l1)
        props.append((t, m))
        return t, m
    v.contract(H + 'sample_layerbr_min', lambda fin_t, init_x, fin_x, ub_x=None, lb_min_x=None, ub_min_x=None, ome=None, max_props=None: minimum(fin_t, init_x, fin_x, ub_x, lb_min_x, ub_min_x, ome))

    def escape(fin_t, init_x, fin_x, ue_x, ub_x=None, seed=None, ome_=None):
        t, m = props[-1]
        v.ensure('decided from the generator by its own seed', seed is None and ome_ is ome)
        if M.is_num(fin_x) and fin_x == 0: init_x, fin_x = fin_x, init_x
        left, right = conj([eqv(fin_t, t), eqv(fin_x, a - m)]), conj([eqv(fin_t, T - t), eqv(fin_x, b - m)])
        v.ensure('from the minimum to an end', conj([eqv(init_x, 0), disj([left, right])]))
        v.ensure('reaching the level to hit, known to stay below the upper bound', conj([eqv(ue_x, h0 - m), ub_x is not None, eqv(ub_x, h1 - m)]))
        r = v.bool('esc%d' % len(esc))
        esc.append((len(props) - 1, left, right, r))
        return r
    v.contract(H + 'sample_bessel3br_esc', lambda fin_t, init_x, fin_x, ue_x, ub_x=None, seed=None, ome=None: escape(fin_t, init_x, fin_x, ue_x, ub_x, seed, ome))
    mine = lambda: [e for e in esc if e[0] == len(props) - 1]
    at_edge = disj([eqv(smin2(a, b), l1), eqv(smin2(a, b), h0)])

    def fell(loop, carried):
        U = v.drawn('U')
        v.ensure('rejected only when the upper sector is reached, by half', conj([disj([e[3] for e in mine()]), len(U) == 1, neg(at_edge)] + [U[-1].value * 2 <= 1 if U else False]))
    v.on_fallthrough(fell)
    o = v.catch(L + 'sample_edges', T, a, b, (l0, l1), (h0, h1), ome, v.int('max_props', 1))
    if o.exc is not None:
        v.ensure('budget error', type(o.exc).__name__ == 'BudgetConstraintError')
        return
    t, m, hit, up, flags = o.value
    v.ensure('latest minimum', conj([eqv(t, props[-1][0]), eqv(m, props[-1][1])]))
    v.ensure('in its sector', conj([m >= l0, m <= l1]))
    v.ensure('level to hit and upper bound', conj([eqv(hit, h0), eqv(up, h1)]))
    if flags is None: v.ensure('no marks only when the inner layer ends at an end', at_edge)
    else:
        v.ensure('marks otherwise', neg(at_edge))
        v.ensure_len('one mark per side', flags, 2)
        for f, side in zip(list(flags), (1, 2)):
            v.ensure('mark of its own side', disj([conj([e[side], f]) if M.is_num(f) and f else conj([e[side], core.Sym(truth_eq(e[3], f))]) for e in mine()]))
        U = v.drawn('U')
        if v.cases(disj([flags[0], flags[1]])): v.ensure('kept by half', conj([len(U) == 1, U[-1].value * 2 >= 1 if U else False]))


def truth_eq(x, y):
    from pyvc.runner import truth
    return truth(x) == truth(y)
