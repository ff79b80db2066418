"""C07: distribution of a Brownian bridge minimum."""
from pyvc.runner import unit, eqv
from pyvc import core
from pyvc.core import smin2, ite, sexp
from ._spec import H, F_min, INF

FN = [H + 'cdf_brownbr_min']
FP = [H + 'ppf_brownbr_min']


def setup(v, bounds):
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    lo, hi = bounds
    l = v.real('l') if lo else None
    h = v.real('h') if hi else None
    mn = smin2(a, b)
    if h is not None: v.assume(h <= a, h <= b)
    if l is not None: v.assume(l < h if h is not None else l < mn)
    return T, a, b, l, h, mn


@unit('C07', functions=FN)
def cdf_unconditioned(v):
    """without bounds (or with the trivial ones) the function is exp(-2(a-m)(b-m)/T) below both ends, else 1"""
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    m = v.real('m')
    bounds = v.choose((), (None, None), (-INF, None), (None, smin2(a, b)), (-INF, smin2(a, b)))
    r = v.call(H + 'cdf_brownbr_min', m, T, a, b, *bounds)
    v.ensure_eq('closed form', r, F_min(m, T, a, b))
    v.ensure('is a probability', v.and_(r >= 0, r <= 1))


@unit('C07', functions=FN)
def cdf_edges_infinite(v):
    T, a, b = v.real('T', pos=True), v.real('a'), v.real('b')
    v.ensure_eq('zero at minus infinity', v.call(H + 'cdf_brownbr_min', -INF, T, a, b), 0)
    v.ensure_eq('one at plus infinity', v.call(H + 'cdf_brownbr_min', INF, T, a, b), 1)


@unit('C07', functions=FN)
def cdf_conditioned(v):
    """given that the minimum lies in [l, h]: (F(m)-F(l))/(F(h)-F(l)), zero at l and one at h"""
    T, a, b, l, h, mn = setup(v, v.choose((True, True), (True, False), (False, True)))
    m = v.real('m')
    v.assume(m >= l if l is not None else m <= mn, m <= (h if h is not None else mn))
    r = v.call(H + 'cdf_brownbr_min', m, T, a, b, l, h)
    Fl = F_min(l, T, a, b) if l is not None else 0
    Fh = F_min(h, T, a, b) if h is not None else 1
    v.ensure('normalising constant is positive', Fh - Fl > 0)
    v.ensure_eq('conditional probability', r * (Fh - Fl), F_min(m, T, a, b) - Fl)
    v.ensure('is a probability', v.and_(r >= 0, r <= 1))
    top = v.call(H + 'cdf_brownbr_min', h if h is not None else mn, T, a, b, l, h)
    v.ensure_eq('one at the upper bound', top, 1)
    if l is not None:
        v.ensure_eq('zero at the lower bound', v.call(H + 'cdf_brownbr_min', l, T, a, b, l, h), 0)


@unit('C07', functions=FN)
def cdf_nondecreasing(v):
    T, a, b, l, h, mn = setup(v, v.choose((False, False), (True, True), (True, False), (False, True)))
    m, n = v.real('m'), v.real('n')
    v.assume(m <= n, n <= (h if h is not None else mn))
    if l is not None: v.assume(l <= m)
    p, q = [v.call(H + 'cdf_brownbr_min', x, T, a, b, l, h) for x in (m, n)]
    Fl, Fh = F_min(l, T, a, b) if l is not None else 0, F_min(h, T, a, b) if h is not None else 1
    Fm, Fn = F_min(m, T, a, b), F_min(n, T, a, b)
    v.step('nondecreasing', [Fh - Fl > 0, Fm <= Fn, eqv(p * (Fh - Fl), Fm - Fl), eqv(q * (Fh - Fl), Fn - Fl)], p <= q,
           [Fl, Fh, Fm, Fn, p, q])


@unit('C07', functions=FP + FN, slow=20)
def ppf_inverse(v):
    """the quantile lies in the bounds and the distribution function maps it back to its probability"""
    T, a, b, l, h, mn = setup(v, v.choose((False, False), (True, True), (True, False), (False, True)))
    p = v.real('p')
    v.assume(p > 0, p < 1)
    r = v.call(H + 'ppf_brownbr_min', p, T, a, b, l, h)
    v.ensure('not above either endpoint', v.and_(r <= a, r <= b))
    if h is not None: v.ensure('not above the upper bound', r <= h)
    if l is not None: v.ensure('not below the lower bound', r >= l)
    q = v.call(H + 'cdf_brownbr_min', r, T, a, b, l, h)
    v.ensure_eq('distribution function at the quantile', q, p)


@unit('C07', functions=FP)
def ppf_edges(v):
    """probabilities zero and one"""
    T, a, b, l, h, mn = setup(v, v.choose((False, False), (True, True), (True, False), (False, True)))
    p = v.choose(0, 1)
    r = v.call(H + 'ppf_brownbr_min', p, T, a, b, l, h)
    if p == 1: v.ensure_eq('probability one gives the upper bound', r, h if h is not None else mn)
    elif l is not None: v.ensure_eq('probability zero gives the lower bound', r, l)
    else: v.ensure_eq('probability zero gives minus infinity', r, -INF)


@unit('C07', functions=FP + FN)
def ppf_closed_form(v):
    """the quantile as the smaller root of the quadratic (used by callers)"""
    T, a, b, l, h, mn = setup(v, v.choose((False, False), (True, False), (False, True), (True, True)))
    p = v.real('p')
    v.assume(p > 0, p < 1)
    r = v.call(H + 'ppf_brownbr_min', p, T, a, b, l, h)
    Fl, Fh = sexp(-2 * (a - l) * (b - l) / T) if l is not None else 0, F_min(h, T, a, b) if h is not None else 1
    v.ensure_eq('closed form', r, (a + b - core.ssqrt((b - a) ** 2 - 2 * T * core.slog(p * (Fh - Fl) + Fl))) / 2)
