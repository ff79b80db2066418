"""C04: conjugate inference for jump rates."""
from pyvc.runner import unit, eqv, conj, disj, implies
from ._mjp import *


def beliefs(v, d):
    nan = float('nan')
    mk = lambda nm: v.freeze(M.Arr.from_list([[nan if i == j else v.real('%s%d%d' % (nm, i, j), pos=True) for j in range(d)] for i in range(d)]), nm)
    return mk('alp'), mk('bet')


@unit('C04', functions=[INF_ + 'update'], note='2 or 3 states, any number of sojourns')
def update(v):
    """transition counts and holding times, for paths with any number of sojourns"""
    d = v.small('states', 2, 3)
    sk, n, t, x, fin_t = path(v, d, distinct=True)
    alp, bet = beliefs(v, d)
    a, b = v.call(INF_ + 'update', sk, alp, bet)
    i, j = v.choose(*range(d)), v.choose(*range(d))
    if i == j: v.done()
    eq = lambda k, s: core.compare('==', at(x, k), s)
    v.ensure_eq('transitions are added to the shapes', a.get((i, j)), alp.get((i, j)) + total(n - 1, lambda k: M.ite_bool(M.band(eq(k, i), eq(k + 1, j)), 1, 0)))
    dur = sojourn(t, n, fin_t)
    v.ensure_eq('whole time in a state is added to the rates', b.get((i, j)), bet.get((i, j)) + total(n, lambda k: M.ite_bool(eq(k, i), dur(k), 0)))


def generator(v, d):
    g = [[None if i == j else v.real('lam%d%d' % (i, j), pos=True) for j in range(d)] for i in range(d)]
    for i in range(d): g[i][i] = -sum(g[i][j] for j in range(d) if j != i)
    return v.freeze(M.Arr.from_list(g), 'generator')


@unit('C04', functions=[INF_ + 'eval_loglik'])
def loglik(v):
    """any number of states and sojourns"""
    d = v.dim('states', 2)
    sk, n, t, x, fin_t = path(v, d, distinct=True)
    g = v.freeze(v.array('lam', (d, d)), 'generator')
    v.known_all(d, lambda i: g.get((i, i)) < 0)
    v.known_all(n - 1, lambda k: g.get((at(x, k), at(x, k + 1))) > 0)
    r = v.call(INF_ + 'eval_loglik', sk, g)
    dur = sojourn(t, n, fin_t)
    v.ensure_eq('log rates of the transitions plus weighted sojourns', r,
                total(n - 1, lambda k: core.slog(g.get((at(x, k), at(x, k + 1))))) + total(n, lambda k: dur(k) * g.get((at(x, k), at(x, k)))))


@unit('C04', functions=[INF_ + 'eval_logprior'], note='2 to 4 states')
def logprior(v):
    """gamma log density of the off-diagonal rates up to a constant (of the beliefs)"""
    d = v.small('states', 2, 4)
    alp, bet = beliefs(v, d)
    g, h = generator(v, d), generator(v, d)
    off = [(i, j) for i in range(d) for j in range(d) if i != j]
    logd = lambda G: sum((alp.get(p) - 1) * core.slog(G.get(p)) - bet.get(p) * G.get(p) for p in off)
    r, s = v.call(INF_ + 'eval_logprior', g, alp, bet), v.call(INF_ + 'eval_logprior', h, alp, bet)
    v.ensure_eq('differences are those of the gamma log densities', r - s, logd(g) - logd(h))
