"""C21: random walk proposals and their log weights.  Bounds: none, lower only, upper only."""
from pyvc.runner import unit, eqv, conj, implies
from pyvc import core, npmodel as M
from pyvc.diff import deriv
from ._spec import *

KINDS = ('none', 'lower', 'upper')


def bounds_of(v, kind, name='bound'):
    if kind == 'none': return -INF, INF
    b = v.real(name)
    return (b, INF) if kind == 'lower' else (-INF, b)


def dist(kind, lb, ub, x): return x - lb if kind == 'lower' else ub - x


def free(kind, lb, ub, x):
    """specification of the unconstrained coordinate and its log Jacobian"""
    if kind == 'none': return x, 0
    l = core.slog(dist(kind, lb, ub, x))
    return l, -l


def inside(kind, lb, ub, x): return True if kind == 'none' else dist(kind, lb, ub, x) > 0


@unit('C21', functions=[AD + 'transform_to_reals', AD + 'transform_to_const'])
def transforms(v):
    """the transforms are inverse to each other and report the log density (Jacobian) of the transform"""
    kind = v.choose(*KINDS)
    lb, ub = bounds_of(v, kind)
    x = v.real('x')
    v.assume(inside(kind, lb, ub, x))
    y, w = v.call(AD + 'transform_to_reals', x, lb, ub)
    fy, fw = free(kind, lb, ub, x)
    v.ensure_eq('coordinate is the log distance to the bound', y, fy)
    v.ensure_eq('log weight at the current value', w, fw)
    d = deriv(M.numify(fy), x) if kind != 'none' else 1
    v.ensure_eq('log weight is the log of the absolute derivative', core.sexp(w), core.sabs(d))
    x2, w2 = v.call(AD + 'transform_to_const', y, lb, ub)
    v.ensure_eq('transforming back restores the value', x2, x)
    v.ensure_eq('the weight is the same from both sides', w2, w)
    z = v.real('z')
    x3, w3 = v.call(AD + 'transform_to_const', z, lb, ub)
    v.ensure('stays strictly inside the bound', inside(kind, lb, ub, x3))
    v.ensure_eq('the unconstrained coordinate of the proposal', free(kind, lb, ub, x3)[0], z)
    v.ensure_eq('log weight at the proposal', w3, free(kind, lb, ub, x3)[1])


@unit('C21', functions=[AD + 'MyopicRwSampler.propose', AD + 'MyopicRwSampler.__init__', AD + 'transform_to_reals', AD + 'transform_to_const'])
def scalar_proposal(v):
    """one proposal of the scalar sampler, at any state and scale"""
    kind = v.choose(*KINDS)
    lb, ub = bounds_of(v, kind)
    x = v.real('state')
    v.assume(inside(kind, lb, ub, x))
    S = v.fn(AD + 'MyopicRwSampler')(x, (lb, ub))
    v.ensure_eq('the state is stored', S.state, x)
    S.log_prop_scale = M.SymList.of_arr(v.vec('log_scales', v.dim('history', 1)))
    ls = S.log_prop_scale[-1]
    g = v.gen()
    prop, wf, wb = v.call(AD + 'MyopicRwSampler.propose', S, g)
    zs = v.drawn('Z')
    v.ensure('one normal draw', len(zs) == 1 and zs[0].gen is g)
    y0, w0 = free(kind, lb, ub, x)
    v.ensure_eq('Gaussian step around the current coordinate', zs[0].params['loc'], y0)
    v.ensure_eq('step size', zs[0].params['scale'], core.sexp(ls))
    v.ensure('stays strictly inside the bound', inside(kind, lb, ub, prop))
    y1, w1 = free(kind, lb, ub, prop)
    v.ensure_eq('the proposal has the drawn coordinate', y1, y0 + core.sexp(ls) * zs[0].value)
    v.ensure_eq('log weight at the proposed value', wf, w1)
    v.ensure_eq('log weight at the current value', wb, w0)
    v.ensure_eq('the state is kept', S.state, x)


def vector(v, d, kinds, lbs, ubs, x, prop_check):
    S = v.fn(AD + 'MyopicMvRwSampler')(x, (lbs, ubs))
    S.log_prop_scale = M.SymList.of_arr(v.vec('log_scales', v.dim('history', 1)))
    ls = S.log_prop_scale[-1]
    S.prop_cov = v.array('prop_cov', (d, d))
    cov = S.prop_cov
    g = v.gen()
    r = v.call(AD + 'MyopicMvRwSampler.propose', S, g)
    dr = v.drawn('MVN')
    v.ensure('one Gaussian vector', len(dr) == 1 and dr[0].gen is g)
    i = v.index(d, 'i'); j = v.index(d, 'j')
    v.ensure_eq('covariance of the step', dr[0].params['cov'].get((i, j)), cov.get((i, j)) * core.sexp(ls))
    prop, wf, wb = r
    v.ensure_len('one value per coordinate', prop, d)
    return i, dr[0], prop, wf, wb


@unit('C21', functions=[AD + 'MyopicMvRwSampler.propose', AD + 'MyopicMvRwSampler.__init__', AD + 'transform_to_reals', AD + 'transform_to_const'])
def vector_proposal(v):
    """one proposal of the vector sampler in any dimension, all coordinates with the same kind of bound"""
    kind = v.choose(*KINDS)
    d = v.dim('dimension', 1)
    lbs = v.freeze(v.vec('bounds', d), 'bounds') if kind == 'lower' else M.full((d,), -INF)
    ubs = v.freeze(v.vec('bounds', d), 'bounds') if kind == 'upper' else M.full((d,), INF)
    x = v.freeze(v.vec('state', d), 'state')
    at = lambda a, i: a.get((i,))
    if kind != 'none': v.known_all(d, lambda i: inside(kind, at(lbs, i), at(ubs, i), at(x, i)))
    i, dr, prop, wf, wb = vector(v, d, None, lbs, ubs, x, None)
    y0, _ = free(kind, at(lbs, i), at(ubs, i), at(x, i))
    v.ensure_eq('Gaussian step around the current coordinates', at(dr.params['mean'], i), y0)
    v.ensure('stays strictly inside the bound', inside(kind, at(lbs, i), at(ubs, i), at(prop, i)))
    v.ensure_eq('the proposal has the drawn coordinates', free(kind, at(lbs, i), at(ubs, i), at(prop, i))[0], y0 + at(dr.value, i))
    if kind == 'none': lb_, lf = 0, 0
    else:
        lw = lambda z: M.np_sum(-M.ewn(core.slog, ((z - lbs) if kind == 'lower' else (ubs - z),)))
        lb_, lf = lw(x), lw(x) - M.np_sum(dr.value)
    v.ensure_eq('log weight at the current value', wb, lb_)
    v.ensure_eq('log weight at the proposed value', wf, lf)


@unit('C21', functions=[AD + 'MyopicMvRwSampler.propose', AD + 'transform_to_reals', AD + 'transform_to_const'], note='dimension at most 2 with every mix of unbounded, lower- and upper-bounded coordinates')
def vector_proposal_mixed(v):
    """one proposal of the vector sampler with every mix of bounds in dimension up to 2"""
    d = v.small('dimension', 1, 2)
    kinds = [v.choose(*KINDS) for _ in range(d)]
    bs = [bounds_of(v, k, 'bound%d' % i) for i, k in enumerate(kinds)]
    lbs, ubs = M.Arr.from_list([b[0] for b in bs]), M.Arr.from_list([b[1] for b in bs])
    x = v.vec('state', d)
    for i in range(d): v.assume(inside(kinds[i], *bs[i], x.get((i,))))
    i, dr, prop, wf, wb = vector(v, d, kinds, lbs, ubs, x, None)
    fx = [free(kinds[k], *bs[k], x.get((k,))) for k in range(d)]
    fp = [free(kinds[k], *bs[k], prop.get((k,))) for k in range(d)]
    v.ensure_eq('Gaussian step around the current coordinates', dr.params['mean'].get((i,)), fx[i][0])
    v.ensure('stays strictly inside the bound', inside(kinds[i], *bs[i], prop.get((i,))))
    v.ensure_eq('the proposal has the drawn coordinates', fp[i][0], fx[i][0] + dr.value.get((i,)))
    v.ensure_eq('log weight at the current value', wb, sum(w for _, w in fx))
    v.ensure_eq('log weight at the proposed value', wf, sum(w for _, w in fp))
