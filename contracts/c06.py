"""C06: Poisson points."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from pyvc.core import Sym
from ._spec import *
from pyvc.instrument import h_len as ilen


def box(v):
    d = v.small('dimension', 1, 3)
    lam = v.real('intensity', pos=True)
    b = [v.real('bound%d' % i, pos=True) for i in range(d)]
    vol = 1
    for x in b: vol = vol * x
    return d, lam, b, vol


@unit('C06', functions=[MJ + 'sample_ppp'], note='boxes of dimension at most 3, any number of points')
def all_at_once(v):
    """any number of points"""
    d, lam, b, vol = box(v)
    g = v.gen()
    r = v.call(MJ + 'sample_ppp', lam, tuple(b), g)
    ps, us = v.drawn('poisson'), v.drawn('U')
    v.ensure('one Poisson number of points', len(ps) == 1 and ps[0].gen is g)
    v.ensure_eq('mean is intensity times volume', ps[0].params['lam'], lam * vol)
    n = ps[0].value
    v.ensure_len('as many points', r, n)
    v.ensure('one coordinate per axis', r.ndim == 2 and eqv(r._shape[1], d))
    i = v.index(n)
    for j in range(d):
        v.ensure('points lie in the box', conj([r.get((i, j)) >= 0, r.get((i, j)) <= b[j]]))
    v.forall_pairs('sorted by the first coordinate', n, lambda i, k: r.get((i, 0)) <= r.get((k, 0)))
    # the points are the uniform draws, each used once
    v.ensure('one uniform per coordinate', len(us) == 1 and us[0].gen is g)
    U = us[0].value
    v.ensure('one uniform per coordinate of each point', conj([eqv(U._shape[0], n), eqv(U._shape[1], d)]))
    def foreign(): v.known_all(n, lambda k: disj([r.get((i, j)) != b[j] * U.get((k, j)) for j in range(d)]))
    v.contradiction('every point is a drawn point, coordinates together', foreign)
    def missing(): v.known_all(n, lambda k: disj([r.get((k, j)) != b[j] * U.get((i, j)) for j in range(d)]))
    v.contradiction('every drawn point is returned', missing)


@unit('C06', functions=[MJ + 'sample_batch_ppp'], note='boxes of dimension at most 3, any number of points and any batch size')
def in_batches(v):
    """an arbitrary batch: the next order statistics of uniforms given the ones so far"""
    d, lam, b, vol = box(v)
    g, size = v.gen(), v.int('batch_size', 1)
    N = lambda: v.drawn('poisson')[0].value
    q, rem = (lambda: Sym(N().e / size.e)), (lambda: Sym(N().e % size.e))

    def rel(s, k):
        k = core.Sym(core.lift(k)) if not isinstance(k, Sym) else k
        return conj([s['done'] >= 0, s['done'] < b[0],
                     disj([conj([k <= q(), eqv(s['left'], rem() + (q() - k) * size)]), conj([k == q() + 1, eqv(s['left'], 0)])])])

    def make_left():
        # division with remainder
        v.ensure('quotient and remainder', conj([eqv(N(), q() * size + rem()), rem() >= 0, rem() < size, q() >= 0]))
        k = v.c.loop.index
        v.ensure('whole batches left', implies(k < q(), (q() - k) * size >= size))
        return v.int('left')
    st = v.invariant({'left': (lambda x: isinstance(x, Sym) and bool(v.drawn('poisson')) and x.e.eq(N().e), make_left),
                      'done': (lambda x: isinstance(x, (int, float)) and x == 0, lambda: v.real('done'))}, rel)
    gen = v.call(MJ + 'sample_batch_ppp', lam, tuple(b), size, g)
    try: r = next(gen)
    except StopIteration:
        ps = v.drawn('poisson')
        v.ensure('one Poisson number of points', len(ps) == 1 and ps[0].gen is g)
        v.ensure_eq('mean is intensity times volume', ps[0].params['lam'], lam * vol)
        v.ensure('all points have been returned', eqv(st['vals']['left'] if 'vals' in st else N(), 0))
        return
    lo, left, k = st['vals']['done'], st['vals']['left'], st['loop'].index
    ps, be, us = v.drawn('poisson'), v.drawn('beta'), v.drawn('U')
    n = ilen(r)
    v.ensure('one coordinate per axis', r.ndim == 2 and eqv(r._shape[1], d))
    v.ensure('batches hold points', n >= 1)
    v.ensure('no more points than left', n <= left)
    v.ensure('full batches but for the last', disj([eqv(n, size), eqv(n, left)]))
    v.ensure('one step to the last point of the batch', len(be) == 1 and be[0].gen is g)
    v.ensure_eq('order statistic: first parameter', be[0].params['a'], n); v.ensure_eq('order statistic: second parameter', be[0].params['b'], left + 1 - n)
    top = lo + (b[0] - lo) * be[0].value
    v.ensure_eq('last point of the batch', r.get((n - 1, 0)), top)
    v.forall_pairs('increasing first coordinate', n, lambda i, j: r.get((i, 0)) <= r.get((j, 0)))
    i = v.index(n)
    v.ensure('batches continue in increasing order, in the box', conj([r.get((i, 0)) >= lo, r.get((i, 0)) <= top, top < b[0]]))
    for j in range(1, d): v.ensure('points lie in the box', conj([r.get((i, j)) >= 0, r.get((i, j)) <= b[j]]))
    for x in us: v.ensure('the generator that was passed', x.gen is g)
    # earlier points of the batch: independent uniforms between the last point so far and the new one
    first = [x for x in us if isinstance(x.value, M.Arr) and x.value.ndim == 1]
    rest = [x for x in us if isinstance(x.value, M.Arr) and x.value.ndim == 2]
    if v.cases(n == 1): v.ensure('a single point needs no uniform', True)
    else:
        v.ensure('uniforms for the earlier points', len(first) == 1)
        U = first[0].value
        v.ensure_len('one uniform per earlier point', U, n - 1)
        m = v.index(n - 1)
        def foreign(): v.known_all(n - 1, lambda k: r.get((m, 0)) != lo + (top - lo) * U.get((k,)))
        v.contradiction('earlier points are uniforms between the ends', foreign)
    if d > 1:
        v.ensure('independent uniforms for the other coordinates', len(rest) == 1)
        W = rest[0].value
        v.ensure('one uniform per other coordinate', conj([eqv(W._shape[0], n), eqv(W._shape[1], d - 1)]))
        for j in range(1, d): v.ensure_eq('other coordinates are uniform', r.get((i, j)), b[j] * W.get((i, j - 1)))
    next(gen)
    v.ensure('one batch per iteration', False)
