"""C14: reversal, reflection, flipping."""
import numpy as np
from concrete.lib import oracle
from ctbayes.sdelib import transforms as tr
from ctbayes.ea3lib import skeleton as sk3


@oracle('C14', iters=600)
def involutions(t):
    """reversing, reflecting and flipping against their definitions"""
    n = int(t.rng.integers(1, 7)); T = t.pos(); ts = np.sort(t.rng.uniform(0, T, n)); x = t.rng.normal(size=n); l = t.real()
    t.note(t=ts, x=x, fin_t=T, level=l)
    a, b = tr.reverse(ts.copy(), x.copy(), T)
    t.close(a, T - ts[::-1], 'reversed times'); t.close(b, x[::-1], 'reversed values')
    a, b = tr.reverse(np.array(a), np.array(b), T)
    t.close(a, ts, 'reversing twice: times', atol=1e-12 * (1 + T)); t.close(b, x, 'reversing twice: values')
    a, b = tr.reflect(ts.copy(), x.copy(), l)
    t.close(a, ts, 'reflected times'); t.close(b, 2 * l - x, 'reflected values')
    a, b = tr.reflect(np.array(a), np.array(b), l)
    t.close(b, x, 'reflecting twice', rtol=1e-9, atol=1e-9)


@oracle('C14', iters=600)
def flipping(t):
    """flipped layered paths"""
    n = int(t.rng.integers(2, 7)); T = t.pos(); ts = np.concatenate([[0], np.sort(t.rng.uniform(0, T, n - 2)), [T]]); x = t.rng.normal(size=n)
    lo, hi = x.min() - t.pos(), x.max() + t.pos(); s = t.rng.integers(2)
    hits = None if t.rng.integers(3) == 0 else [bool(z) for z in t.rng.integers(0, 2, n - 1)]
    k = sk3.Skeleton(ts.copy(), x.copy(), *( (lo, hi) if s else (hi, lo)), float(t.rng.uniform(x.max(), hi) if s else t.rng.uniform(lo, x.min())), hits)
    t.note(path=k)
    f = sk3.flip_skeleton(k); m = x[0] + x[-1]
    t.close(f.t, T - ts[::-1], 'times of the flipped path', atol=1e-12 * (1 + T)); t.close(f.x, m - x[::-1], 'values of the flipped path')
    t.close(f.x[0], x[0], 'start value', rtol=1e-9); t.close(f.x[-1], x[-1], 'end value', rtol=1e-9)
    for nm in ('tight_x', 'loose_x', 'hit_x'): t.close(getattr(f, nm), m - getattr(k, nm), 'level ' + nm)
    t.check((f.tight_x - f.loose_x) * (k.tight_x - k.loose_x) < 0, 'lower and upper edge exchange roles')
    g = sk3.flip_skeleton(f)
    if hits is None: t.check(f.hit_i is None and g.hit_i is None, 'no flags stay none')
    else:
        t.check([bool(z) for z in f.hit_i] == hits[::-1], 'flags stay attached to their segments', got=f.hit_i)
        t.check([bool(z) for z in g.hit_i] == hits, 'flipping twice: flags')
    t.close(g.t, ts, 'flipping twice: times', atol=1e-12 * (1 + T)); t.close(g.x, x, 'flipping twice: values')
    for nm in ('tight_x', 'loose_x', 'hit_x'): t.close(getattr(g, nm), getattr(k, nm), 'flipping twice: ' + nm)
