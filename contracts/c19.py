"""C19: standardising a bridge segment and undoing it."""
from pyvc.runner import unit, eqv, conj
from pyvc import core, npmodel as M
from . import _models as m


def check_segment(v, op, T, x0, x1, sig, what=''):
    """one pair of maps against the specification, at arbitrary times and values"""
    nm, dn = op
    n = v.dim('n_times', 1)
    t, x = v.vec('times', n), v.vec('values', n)
    rt = core.ssqrt(T)
    s, z = nm(t, x)
    v.ensure_len('one time per time', s, n); v.ensure_len('one value per value', z, n)
    k = v.index(n)
    tk, xk = t.get((k,)), x.get((k,))
    v.ensure_eq('standardised time', s.get((k,)), tk / T)
    v.ensure_eq('standardised value', z.get((k,)), (xk - x0 - tk / T * (x1 - x0)) / (rt * sig))
    t2, x2 = dn(s, z)
    v.ensure_eq('time is restored', t2.get((k,)), tk)
    v.ensure_eq('value is restored', x2.get((k,)), xk)
    # the other way round
    u, w = v.vec('unit_times', n), v.vec('bridge_values', n)
    t3, x3 = dn(u, w)
    v.ensure_eq('time on the original scale', t3.get((k,)), u.get((k,)) * T)
    v.ensure_eq('value on the original scale', x3.get((k,)), w.get((k,)) * rt * sig + x0 + u.get((k,)) * (x1 - x0))
    u2, w2 = nm(t3, x3)
    v.ensure_eq('unit time is restored', u2.get((k,)), u.get((k,)))
    v.ensure_eq('standardised value is restored', w2.get((k,)), w.get((k,)))
    # ends
    s0, z0 = nm(M.Arr.from_list([0, T]), M.Arr.from_list([x0, x1]))
    for i, (a, b) in enumerate(((0, 0), (1, 0))):
        v.ensure_eq('ends of the unit interval', s0.get((i,)), a); v.ensure_eq('observations are standardised to zero', z0.get((i,)), b)
    _, xe = dn(M.Arr.from_list([0, 1]), M.Arr.from_list([0, 0]))
    v.ensure_eq('start is the first observation', xe.get((0,)), x0); v.ensure_eq('end is the second observation', xe.get((1,)), x1)
    # times alone
    a, b = nm(t, None)
    v.ensure('times alone', b is None); v.ensure_eq('times alone are standardised', a.get((k,)), tk / T)
    a, b = dn(u, None)
    v.ensure('unit times alone', b is None); v.ensure_eq('unit times alone are mapped back', a.get((k,)), u.get((k,)) * T)


def mk(kind, name):
    p = (m.ito if kind == 'ito' else m.swi)(name)
    S = 'ctbayes.%s.static:assemble_model.' % kind

    @unit('C19', name='%s_%s' % (kind, name), functions=[p + 'gen_normops', S + 'norm_rsde', S + 'denorm_rsde', S + 'gen_normops'])
    def go(v):
        """the maps of an arbitrary segment among any number of observations"""
        n = v.dim('observations', 2)
        t = v.freeze(v.sorted('t', n), 'times')
        vt = v.freeze(v.vec('v', n, (lambda i, x: x > 0) if name == 'cir' else None), 'observations')
        if kind == 'ito':
            thi = m.ito_thi(v, name)
            ops = v.call(p + 'gen_normops', thi, t, vt)
        else:
            thi, nr = m.swi_thi(v, name)
            y = v.freeze(m.regimes(v, 'y', n, nr), 'regimes')
            ops = v.call(p + 'gen_normops', thi, t, y, vt)
        v.ensure_len('one pair of maps per consecutive pair', ops, n - 1)
        i = v.index(n - 1, 'segment')
        T = t.get((i + 1,)) - t.get((i,))
        v.ensure('duration is positive', T > 0)
        if kind == 'ito':
            x0, x1 = [v.call(p + 'reduce', thi, vt.get((j,))) for j in (i, i + 1)]
            sig = 1
        else:
            x0, x1 = vt.get((i,)), vt.get((i + 1,))
            sig = m.vol(kind, name, [thi.get((y.get((i,)), j)) for j in range(2)])
        op = M_at(ops, i)
        check_segment(v, op, T, x0, x1, sig)


def M_at(ops, i): return ops[i]


for _n in m.ITO: mk('ito', _n)
for _n in m.SWI: mk('switching', _n)
