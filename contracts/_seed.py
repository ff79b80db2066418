"""Contracts of the layered-bridge helpers as their callers see them."""
import z3
from pyvc import core, npmodel as M, instrument as I
from pyvc.core import Sym, compare
from pyvc.runner import conj, implies, truth
from ._spec import *

SEED = 'ctbayes.ea3lib.seed:'
MJS = 'ctbayes.mjplib.skeleton:'


def seed_cls(v): return v.fn(SEED + 'SeedSkeleton')


def fresh_seed(v, lo=None, hi=None, flip=None, like=None):
    """A seed of which only the layer [lo, hi] of its values is known (either edge may be the tight one)."""
    if like is not None: tight, loose, hit, hi_ = like.tight_z, like.loose_z, like.hit_z, like.hit_i
    else:
        lo = v.real('lo_z') if lo is None else lo
        hi = v.real('hi_z') if hi is None else hi
        v.assume(lo <= 0, hi >= 0, lo < hi)
        tight, loose = (hi, lo) if (v.choose(False, True) if flip is None else flip) else (lo, hi)
        hit, hi_ = v.real('hit_z'), None
    n = v.int('support', 2)
    return seed_cls(v)(v.vec('seed_s', n), v.vec('seed_z', n), tight, loose, hit, hi_)


def layer(seed):
    return core.smin2(seed.tight_z, seed.loose_z), core.smax2(seed.tight_z, seed.loose_z)


def affine_ops(v, T, a, b, sig=1):
    """The standardisation of a segment of duration T from a to b with volatility sig (C19), as a specification."""
    rt = core.ssqrt(T)
    v.assume(rt > 0, rt * rt == T)

    def norm(t, x):
        s = t / T
        return s, (None if x is None else (x - a - s * (b - a)) / (rt * sig))

    def denorm(s, z):
        return s * T, (None if z is None else z * rt * sig + a + s * (b - a))
    return norm, denorm


class PathSpec:
    """interpolate_seed as a contract: one fixed but arbitrary standardised path Z; the values returned at
    given times are its values there, denormalised by the operation that was passed.  Every refinement has
    to start from the latest refined seed, for otherwise values revealed earlier would be drawn anew."""
    def __init__(self, v, seed, Z=None):
        self.v, self.Z, self.last = v, Z or v.func('Z'), seed
        self.calls = 0

        def interp(seed, new_t, norm_rsde, denorm_rsde, ome):
            v.ensure('refinement starts from the latest refined seed', seed is self.last)
            v.ensure('the generator is passed on', ome is self.ome)
            n = new_t._shape[0] if isinstance(new_t, M.Arr) and new_t.ndim else len(M.asarr(new_t)._shape) and M.asarr(new_t)._shape[0]
            new_t = M.asarr(new_t)
            v.forall_pairs('requested times come in order', n, lambda i, j: compare('<=', new_t.get((i,)), new_t.get((j,))))
            s, _ = norm_rsde(new_t, None)
            _, x = denorm_rsde(s, self.Z(s))
            self.last = fresh_seed(v, like=self.last)
            self.calls += 1
            return self.last, x
        v.contract(SEED + 'interpolate_seed', interp)
        self.ome = None

    def havoc(self, name, val):
        if isinstance(val, seed_cls(self.v)):
            self.last = fresh_seed(self.v, like=val)
            return self.last
        return NotImplemented

    def exit(self, carried):
        for x in carried.values():
            if isinstance(x, seed_cls(self.v)): self.last = x

    def check_carried(self, carried):
        for k, x in carried.items():
            if isinstance(x, seed_cls(self.v)) and x is not self.initial:
                self.v.ensure('the refined seed is carried to the next batch', x is self.last)


def batches(v, path, rate_box, on_point, on_fell):
    """sample_batch_ppp as a contract: batches of points of a Poisson process of the given rate on the given
    box (first coordinates increasing over the batches)."""
    st = {}

    def ppp(intensity, bounds, batch_size, ome):
        v.ensure('rate and box of the Poisson process', rate_box(intensity, bounds))
        v.ensure('the generator is passed on', ome is path.ome)
        v.ensure('batches hold points', batch_size >= 1)

        def item():
            n = v.int('batch', 1)
            a = v.array('ppp', (n, len(bounds)), lambda ix, x: [x > 0])
            for d, b in enumerate(bounds):
                v.known_all(n, lambda i, d=d, b=b: a.get((i, d)) < b)
            v.known_pairs(n, lambda i, j: a.get((i, 0)) <= a.get((j, 0)))
            st['n'], st['a'] = n, a
            if on_point: v.known_all(n, lambda i: on_point(a, i))
            return a

        def fell(carried):
            path.check_carried(carried)
            on_fell(st['n'], st['a'])
        return v.source(item, fell=fell, exit=path.exit, havoc=path.havoc)
    v.contract(MJS + 'sample_batch_ppp', ppp)
    return st
