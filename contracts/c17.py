"""C17: drift, antiderivative, derivative and transforms of the models agree."""
from pyvc.runner import unit, eqv, conj
from pyvc.diff import deriv
from . import _models as m


def ito_unit(name):
    p = m.ito(name)
    S = 'ctbayes.ito.static:assemble_model.'
    fns = [p + f for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'reduce', 'dv_reduce', 'dereduce')] + [S + 'eval_disc']

    @unit('C17', name='ito_%s_scalar' % name, functions=fns)
    def scalar(v):
        """antiderivative and derivative of the drift, discrepancy, and the transform with its inverse and derivative, at one state"""
        thi = m.ito_thi(v, name)
        x = v.real('x', pos=(name == 'cir'))
        f = v.call(p + 'eval_drift', thi, x)
        v.ensure_eq('antiderivative differentiates to the drift', deriv(v.call(p + 'sx_eval_drift', thi, x), x), f)
        g = v.call(p + 'dx_eval_drift', thi, x)
        v.ensure_eq('derivative of the drift', g, deriv(f, x))
        v.ensure_eq('discrepancy', v.call(p + 'eval_disc', thi, x), (f * f + g) / 2)
        u = v.real('u', pos=(name == 'cir'))
        r = v.call(p + 'reduce', thi, u)
        v.ensure_eq('derivative of the transform', v.call(p + 'dv_reduce', thi, u), deriv(r, u))
        v.ensure_eq('inverse after transform', v.call(p + 'dereduce', thi, r), u)
        v.ensure_eq('transform after inverse', v.call(p + 'reduce', thi, v.call(p + 'dereduce', thi, x)), x)
        v.ensure('transform is increasing', deriv(r, u) > 0)

    @unit('C17', name='ito_%s_arrays' % name, functions=fns)
    def arrays(v):
        """the same functions work elementwise on arrays of any length"""
        thi = m.ito_thi(v, name)
        n = v.dim('n', 0)
        x = v.freeze(v.vec('x', n, (lambda i, e: e > 0) if name == 'cir' else None), 'states')
        for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'reduce', 'dv_reduce', 'dereduce', 'eval_disc'):
            r = v.call(p + f, thi, x)
            v.ensure_len(f + ': one value per entry', r, n)
            v.forall(f + ': elementwise', n, lambda i: eqv(r.get((i,)), v.call(p + f, thi, x.get((i,)))))


def swi_unit(name):
    p = m.swi(name)
    S = 'ctbayes.switching.static:assemble_model.'
    fns = [p + f for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_vol', 'reduce', 'dv_reduce', 'dereduce')] + [S + 'eval_disc']

    @unit('C17', name='switching_%s_scalar' % name, functions=fns)
    def scalar(v):
        thi, n = m.swi_thi(v, name)
        y = v.int('y', 0, n)
        x, u = v.real('x'), v.real('u')
        f = v.call(p + 'eval_drift', thi, y, x)
        v.ensure_eq('antiderivative differentiates to the drift', deriv(v.call(p + 'sx_eval_drift', thi, y, x), x), f)
        g = v.call(p + 'dx_eval_drift', thi, y, x)
        v.ensure_eq('derivative of the drift', g, deriv(f, x))
        s = v.call(p + 'eval_vol', thi, y)
        v.ensure('volatility is positive', s > 0)
        v.ensure_eq('discrepancy', v.call(p + 'eval_disc', thi, y, x), (f * f / (s * s) + g) / 2)
        r = v.call(p + 'reduce', u)
        v.ensure_eq('derivative of the transform', v.call(p + 'dv_reduce', u), deriv(r, u))
        v.ensure_eq('inverse after transform', v.call(p + 'dereduce', r), u)
        v.ensure_eq('transform after inverse', v.call(p + 'reduce', v.call(p + 'dereduce', x)), x)

    @unit('C17', name='switching_%s_arrays' % name, functions=fns)
    def arrays(v):
        """each entry uses the parameters of its own regime"""
        thi, k = m.swi_thi(v, name)
        n = v.dim('n', 0)
        x = v.freeze(v.vec('x', n), 'states')
        y = v.freeze(m.regimes(v, 'y', n, k), 'regimes')
        for f in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_disc'):
            r = v.call(p + f, thi, y, x)
            v.ensure_len(f + ': one value per entry', r, n)
            v.forall(f + ': own regime', n, lambda i: eqv(r.get((i,)), v.call(p + f, thi, y.get((i,)), x.get((i,)))))
        y0 = v.int('y0', 0, k)
        for f in ('eval_drift', 'sx_eval_drift', 'eval_disc'):
            r = v.call(p + f, thi, y0, x)
            v.ensure_len(f + ': one value per entry in one regime', r, n)
            v.forall(f + ': elementwise in one regime', n, lambda i: eqv(r.get((i,)), v.call(p + f, thi, y0, x.get((i,)))))
        r = v.call(p + 'eval_vol', thi, y)
        v.ensure_len('eval_vol: one value per entry', r, n)
        v.forall('eval_vol: own regime', n, lambda i: eqv(r.get((i,)), v.call(p + 'eval_vol', thi, y.get((i,)))))
        for f in ('reduce', 'dv_reduce', 'dereduce'):
            r = v.call(p + f, x)
            v.ensure_len(f + ': one value per entry', r, n)
            v.forall(f + ': elementwise', n, lambda i: eqv(r.get((i,)), v.call(p + f, x.get((i,)))))


for nm in m.ITO: ito_unit(nm)
for nm in m.SWI: swi_unit(nm)
