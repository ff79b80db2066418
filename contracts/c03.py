"""C03: reading a regime path off at times, occupation probabilities."""
from pyvc.runner import unit, eqv, conj, disj, implies
from ._mjp import *


@unit('C03', functions=[MJ + 'Skeleton.__call__'])
def read_off(v):
    """any number of times within the horizon, in any order"""
    sk, n, t, x, fin_t = path(v, 5, distinct=False)
    m = v.dim('times', 0)
    s = v.freeze(v.vec('s', m, lambda i, z: [z >= 0, z <= fin_t]), 'times')
    r = v.call(sk, s)
    v.ensure_len('one state per time', r, m)
    k = v.index(m)
    # the state entered at the last jump not later than the time
    j = v.int('j', 0)
    v.assume(j < n, at(t, j) <= at(s, k))
    if v.cases(j < n - 1): v.assume(at(t, j + 1) > at(s, k))
    v.ensure_eq('state in force', at(r, k), at(x, j))


@unit('C03', functions=[MJ + 'Skeleton.__call__'])
def read_off_scalar(v):
    """a single time"""
    sk, n, t, x, fin_t = path(v, 5, distinct=False)
    s = v.real('s', nonneg=True)
    o = v.catch(sk, s)
    if o.exc is not None:
        v.ensure('only times past the horizon raise', conj([type(o.exc) is ValueError, s > fin_t]))
        return
    v.ensure('times past the horizon raise', s <= fin_t)
    j = v.int('j', 0)
    v.assume(j < n, at(t, j) <= s)
    if v.cases(j < n - 1): v.assume(at(t, j + 1) > s)
    v.ensure_eq('state in force', o.value, at(x, j))


@unit('C03', functions=[MJ + 'Skeleton.__call__'])
def past_horizon(v):
    """one of the times lies past the horizon"""
    sk, n, t, x, fin_t = path(v, 5, distinct=False)
    m = v.dim('times', 1)
    s = v.vec('s', m, lambda i, z: z >= 0)
    k = v.index(m)
    v.assume(at(s, k) > fin_t)
    o = v.catch(sk, s)
    v.ensure('raises ValueError', type(o.exc) is ValueError)


@unit('C03', functions=[MJ + 'est_stat'])
def occupation(v):
    """fractions of the horizon, for any number of sojourns and requested states"""
    sk, n, t, x, fin_t = path(v, 5, distinct=False)
    m = v.dim('states', 1)
    q = v.freeze(v.vec('q', m, sort='i'), 'states')
    r = v.call(MJ + 'est_stat', sk, q)
    v.ensure_len('one fraction per state', r, m)
    k = v.index(m)
    dur = sojourn(t, n, fin_t)
    v.ensure_eq('fraction of the horizon', at(r, k) * fin_t, total(n, lambda i: M.ite_bool(core.compare('==', at(x, i), at(q, k)), dur(i), 0)))
