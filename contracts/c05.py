"""C05: generator matrices are proper and summarised correctly."""
from pyvc.runner import unit, eqv, conj, disj, implies
from ._mjp import *
from .c04 import beliefs, generator


def proper(v, g, d, entries):
    """off-diagonal entries as stated (nonnegative), rows summing to zero"""
    v.ensure('square', conj([eqv(g._shape[0], d), eqv(g._shape[1], d)]))
    for i in range(d):
        for j in range(d):
            if i == j: continue
            v.ensure_eq('off-diagonal rate', g.get((i, j)), entries(i, j))
            v.ensure('off-diagonal rates are nonnegative', g.get((i, j)) >= 0)
        v.ensure_eq('rows sum to zero', sum(g.get((i, j)) for j in range(d)), 0)


NOTE = '2 to 4 states'


@unit('C05', functions=[MJ + 'sample_trial_generator'], note=NOTE)
def trial(v):
    d, om = v.small('states', 2, 4), v.gen()
    g = v.call(MJ + 'sample_trial_generator', d, om)
    dr = v.c.draws
    v.ensure('drawn from the generator passed', len(dr) == 1 and all(x.gen is om for x in dr))
    proper(v, g, d, lambda i, j: g.get((i, j)))


@unit('C05', functions=[INF_ + 'sample_param'], note=NOTE)
def sampled(v):
    d, om = v.small('states', 2, 4), v.gen()
    a, b = beliefs(v, d)
    g = v.call(INF_ + 'sample_param', a, b, om)
    G = v.drawn('G')
    v.ensure('one gamma matrix', len(v.c.draws) == 1 and len(G) == 1 and G[0].gen is om)
    G = G[0]
    i, j = 0, 1
    sh, sc = M.asarr(G.params['shape']), M.asarr(G.params['scale']) if 'scale' in G.params else None
    for i in range(d):
        for j in range(d):
            if i != j:
                v.ensure_eq('shape of the rate', sh.get((i, j)), a.get((i, j)))
                if sc is not None: v.ensure_eq('scale of the rate', sc.get((i, j)) * b.get((i, j)), 1)
    proper(v, g, d, lambda i, j: G.value.get((i, j)) / b.get((i, j)))


@unit('C05', functions=[INF_ + 'get_ev'], note=NOTE)
def mean(v):
    d = v.small('states', 2, 4)
    a, b = beliefs(v, d)
    proper(v, v.call(INF_ + 'get_ev', a, b), d, lambda i, j: a.get((i, j)) / b.get((i, j)))


@unit('C05', functions=[INF_ + 'get_mode'], note=NOTE)
def mode(v):
    d = v.small('states', 2, 4)
    a, b = beliefs(v, d)
    for i in range(d):
        for j in range(d):
            if i != j: v.assume(a.get((i, j)) >= 1)
    proper(v, v.call(INF_ + 'get_mode', a, b), d, lambda i, j: (a.get((i, j)) - 1) / b.get((i, j)))


@unit('C05', functions=[MJ + 'get_stat'], note='2 to 4 states')
def stationary(v):
    """the vector solving the linear system sums to one and is left unchanged by the generator"""
    d = v.small('states', 2, 4)
    g = generator(v, d)
    r = v.call(MJ + 'get_stat', g)
    v.ensure_len('one probability per state', r, d)
    v.ensure_eq('sums to one', sum(at(r, i) for i in range(d)), 1)
    for j in range(d): v.ensure_eq('left unchanged by the generator', sum(at(r, i) * g.get((i, j)) for i in range(d)), 0)


@unit('C05', functions=[MJ + 'get_trans'])
def transition(v):
    """the matrix exponential of time times generator"""
    d = v.dim('states', 2)
    T = v.real('T', nonneg=True)
    g = v.freeze(v.array('lam', (d, d)), 'generator')
    r = v.call(MJ + 'get_trans', T, g)
    ev = [e for e in v.c.events if e[0] == 'expm']
    v.ensure('one matrix exponential is returned', len(ev) == 1 and r is ev[0][2])
    i, j = v.index(d, 'i'), v.index(d, 'j')
    v.ensure_eq('of time times generator', ev[0][1].get((i, j)), T * g.get((i, j)))
