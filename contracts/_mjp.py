"""Regime paths as the contracts see them."""
from pyvc import core, npmodel as M
from pyvc.core import Sym
from pyvc.runner import conj, eqv
from ._spec import *

at = lambda a, i: M.asarr(a).get((i,))


def states(v, name, n, dim):
    return v.vec(name, n, lambda i, y: [y >= 0, y < dim], sort='i')


def path(v, dim, n=None, distinct=True, name='', freeze=True):
    """A regime path with any number of sojourns: starts at zero, jump times increase below the horizon."""
    n = v.dim('sojourns' + name, 1) if n is None else n
    fin_t = v.real('fin_t' + name, pos=True)
    t = v.sorted('t' + name, n, lo=0, hi=fin_t, lo_strict=False)
    v.assume(at(t, 0) == 0)
    x = states(v, 'x' + name, n, dim)
    if distinct:
        if M.dim_is_int(n):
            for i in range(n - 1): v.assume(at(x, i) != at(x, i + 1))
        else: v.known_all(n - 1, lambda i: at(x, i) != at(x, i + 1))
    if freeze: v.freeze(t, 'jump times'); v.freeze(x, 'states')
    return v.fn(MJ + 'Skeleton')(t, x, fin_t), n, t, x, fin_t


def sojourn(t, n, fin_t):
    """duration of sojourn i, the last one up to the horizon"""
    return lambda i: M.ite_bool(core.compare('==', i, n - 1), fin_t - at(t, i), at(t, i + 1) - at(t, i)) if not (isinstance(i, int) and M.dim_is_int(n)) else (fin_t - at(t, i) if i == n - 1 else at(t, i + 1) - at(t, i))


def total(n, f): return M.np_sum(M.Arr((n,), lambda ix: f(ix[0])))
