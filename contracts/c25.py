"""C25: the complete-data (biased) log-likelihood."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from . import _models as m
from ._spec import *

PI = core.Sym(core.PI)


def log_normal(d, s2): return -core.slog(2 * PI * s2) / 2 - d * d / (2 * s2)


def vec(n, f): return M.Arr((n,), lambda ix: f(ix[0]))


def total(n, f): return M.np_sum(vec(n, f))


def mk_ito(name):
    p = m.ito(name)

    @unit('C25', name='ito_%s' % name, functions=['ctbayes.ito.static:assemble_model.eval_biased_log_lik', p + 'sx_eval_drift', p + 'reduce', p + 'dv_reduce'])
    def go(v):
        """sum over any number of consecutive pairs of observations"""
        n = v.dim('observations', 2)
        t = v.freeze(v.sorted('t', n), 'times')
        vt = v.freeze(v.vec('v', n, (lambda i, x: x > 0) if name == 'cir' else None), 'observations')
        thi = m.ito_thi(v, name)
        x = v.call(p + 'reduce', thi, vt)
        S = lambda z: v.call(p + 'sx_eval_drift', thi, z)
        at = lambda a, i: a.get((i,))

        def pair(i):
            dx = at(x, i + 1) - at(x, i)
            return log_normal(dx, at(t, i + 1) - at(t, i)) + core.slog(core.sabs(v.call(p + 'dv_reduce', thi, at(vt, i + 1)))) + S(at(x, i + 1)) - S(at(x, i))
        r = v.call(p + 'eval_biased_log_lik', thi, t, vt)
        v.ensure_eq('sum over pairs of transition density, Jacobian and antiderivative difference', r, total(n - 1, pair))


def mk_swi(name):
    p = m.swi(name)

    @unit('C25', name='switching_%s' % name, functions=['ctbayes.switching.static:assemble_model.eval_biased_log_lik', p + 'sx_eval_drift', p + 'eval_vol'])
    def go(v):
        """any number of anchors and regimes, all segments or those of one regime"""
        n = v.dim('anchors', 2, 4)
        t = v.freeze(v.sorted('t', n), 'times')
        vt = v.freeze(v.vec('v', n), 'values')
        thi, nr = m.swi_thi(v, name)
        y = v.freeze(m.regimes(v, 'y', n, nr), 'regimes')
        at = lambda a, i: a.get((i,))
        th = lambda i: [thi.get((at(y, i), j)) for j in range(2)]
        # the last anchor is an observation, whose regime is the one before it
        v.assume(eqv(at(y, n - 1), at(y, n - 2)))
        x = vt
        vol2 = lambda i: m.vol('switching', name, th(i)) ** 2
        sig = lambda i: (at(t, i + 1) - at(t, i)) * vol2(i)
        SX = lambda i, z: v.call(p + 'sx_eval_drift', thi, at(y, i), z)
        trans = lambda i: log_normal(at(x, i + 1) - at(x, i), sig(i))
        seg = lambda i: (SX(i, at(x, i + 1)) - SX(i, at(x, i))) / vol2(i) + trans(i)
        restrict = v.choose(False, True)
        if restrict:
            k = v.int('restrict', 0)
            v.assume(k < nr)
            a, b = v.call(p + 'eval_biased_log_lik', thi, t, y, vt, k)
            sel = lambda i, z: M.ite_bool(at(y, i) == k, z, 0)
        else:
            a, b = v.call(p + 'eval_biased_log_lik', thi, t, y, vt)
            sel = lambda i, z: z
        v.ensure_eq('sum over the selected segments', a, total(n - 1, lambda i: sel(i, seg(i))))
        # observations: the first anchor and the anchors without a change of regime
        obs = M.compress_info(M.Arr((n,), lambda ix: disj([ix[0] == 0, at(y, ix[0]) == at(y, ix[0] - 1)]), 'b')) if not M.dim_is_int(n) else None
        if obs is None:
            ks = [0] + [i for i in range(1, n) if v.cases(at(y, i) == at(y, i - 1))]
            sel_, cnt = (lambda j: ks[j]), len(ks)
        else: sel_, cnt = obs.sel, obs.count

        def obs_pair(j):
            lo, hi = sel_(j), sel_(j + 1)
            s2 = total(hi - lo, lambda i: sig(lo + i))
            return log_normal(at(x, hi) - at(x, lo), s2)
        v.ensure_eq('correction to the density of the observations', b, total(cnt - 1, obs_pair) - total(n - 1, lambda i: sel(i, trans(i))))


for _n in m.ITO: mk_ito(_n)
for _n in m.SWI: mk_swi(_n)
