"""C14: time reversal, reflection and flipping a layered path."""
from pyvc.runner import unit, eqv, conj
from pyvc import core, npmodel as M
from ._spec import *
from pyvc.instrument import h_len as ilen


@unit('C14', functions=[TR + 'reverse'])
def reverse_involution(v):
    """each time t goes to T - t in reversed order with its value; twice restores the path"""
    n = v.dim('n', 1)
    T = v.real('T', nonneg=True)
    t, x = v.freeze(v.vec('t', n, lambda i, z: [z >= 0, z <= T]), 'times'), v.freeze(v.vec('x', n), 'values')
    at = lambda a, i: a.get((i,))
    t1, x1 = v.call(TR + 'reverse', t, x, T)
    v.ensure_len('one time per time', t1, n); v.ensure_len('one value per value', x1, n)
    k = v.index(n)
    v.ensure_eq('times are mapped to the remaining time in reversed order', at(t1, k), T - at(t, n - 1 - k))
    v.ensure_eq('values stay attached to their times', at(x1, k), at(x, n - 1 - k))
    t2, x2 = v.call(TR + 'reverse', t1, x1, T)
    v.ensure_eq('reversing twice restores the times', at(t2, k), at(t, k))
    v.ensure_eq('reversing twice restores the values', at(x2, k), at(x, k))


@unit('C14', functions=[TR + 'reflect'])
def reflect_involution(v):
    """each value x goes to 2 level - x; twice restores the path"""
    n = v.dim('n', 1)
    l = v.real('level')
    t, x = v.freeze(v.vec('t', n, lambda i, z: z >= 0), 'times'), v.freeze(v.vec('x', n), 'values')
    at = lambda a, i: a.get((i,))
    t1, x1 = v.call(TR + 'reflect', t, x, l)
    v.ensure_len('one time per time', t1, n); v.ensure_len('one value per value', x1, n)
    k = v.index(n)
    v.ensure_eq('times are kept', at(t1, k), at(t, k))
    v.ensure_eq('values are mirrored at the level', at(x1, k), 2 * l - at(x, k))
    t2, x2 = v.call(TR + 'reflect', t1, x1, l)
    v.ensure_eq('reflecting twice restores the times', at(t2, k), at(t, k))
    v.ensure_eq('reflecting twice restores the values', at(x2, k), at(x, k))


def layered(v):
    n = v.dim('support', 2)
    t = v.freeze(v.sorted('t', n, lo=0, lo_strict=False), 'times')
    v.assume(t.get((0,)) == 0)
    x = v.freeze(v.vec('x', n), 'values')
    if v.choose(False, True): hits = None
    else: hits = v.hits = M.SymList.of_arr(v.vec('hit_i', n - 1, sort='b')) if not M.dim_is_int(n) else [v.bool('hit%d' % i) for i in range(n - 1)]
    sk = v.fn(EK + 'Skeleton')(t, x, v.real('tight'), v.real('loose'), v.real('hit'), hits)
    return n, t, x, sk


@unit('C14', functions=[EK + 'flip_skeleton', TR + 'reverse', TR + 'reflect'])
def flip(v):
    """flipping a layered path with any number of support times"""
    n, t, x, sk = layered(v)
    at = lambda a, i: M.asarr(a).get((i,))
    T = at(t, n - 1)
    mid2 = at(x, 0) + at(x, n - 1)
    f = v.call(EK + 'flip_skeleton', sk)
    v.ensure_len('one time per time', f.t, n); v.ensure_len('one value per value', f.x, n)
    k = v.index(n)
    v.ensure_eq('times are reversed', at(f.t, k), T - at(t, n - 1 - k))
    v.ensure_eq('values are reflected at the midpoint of the ends', at(f.x, k), mid2 - at(x, n - 1 - k))
    v.ensure_eq('start value is kept', at(f.x, 0), at(x, 0)); v.ensure_eq('end value is kept', at(f.x, n - 1), at(x, n - 1))
    v.ensure_eq('start time is kept', at(f.t, 0), 0); v.ensure_eq('end time is kept', at(f.t, n - 1), T)
    for nm in ('tight_x', 'loose_x', 'hit_x'):
        v.ensure_eq('levels are reflected: ' + nm, getattr(f, nm), mid2 - getattr(sk, nm))
    v.ensure('lower and upper edge exchange their roles', (f.tight_x - f.loose_x) * (sk.tight_x - sk.loose_x) <= 0)
    g = v.call(EK + 'flip_skeleton', f)
    v.ensure_eq('flipping twice restores the times', at(g.t, k), at(t, k))
    v.ensure_eq('flipping twice restores the values', at(g.x, k), at(x, k))
    for nm in ('tight_x', 'loose_x', 'hit_x'):
        v.ensure_eq('flipping twice restores the levels: ' + nm, getattr(g, nm), getattr(sk, nm))
    if sk.hit_i is None:
        v.ensure('no hit flags stay none', f.hit_i is None and g.hit_i is None)
    else:
        v.ensure('hit flags are kept', f.hit_i is not None and g.hit_i is not None)
        if f.hit_i is None or g.hit_i is None: return
        v.ensure_len('one flag per segment', f.hit_i, n - 1)
        j = v.index(n - 1, 'segment')
        v.ensure('flags stay attached to their segments', eqv(at(f.hit_i, j), at(sk.hit_i, n - 2 - j)))
        v.ensure('flipping twice restores the flags', eqv(at(g.hit_i, j), at(sk.hit_i, j)))
