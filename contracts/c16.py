"""C16: the reported bounds bound the discrepancy."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc.core import smin2, smax2
from . import _models as m


def square_like(v, disc, lo, hi, x, bounds, mn):
    """the discrepancy is increasing in |x|, with its minimum at zero"""
    gl, ll, ul = bounds
    dx, d0, dl, dh = disc(x), disc(0), disc(lo), disc(hi)
    v.ensure('lower bound', ll <= dx)
    v.ensure('upper bound', dx <= ul)
    v.ensure('lower bound is attained', disj([conj([eqv(ll, dl)]), conj([eqv(ll, dh)]), conj([eqv(ll, d0), lo < 0, hi > 0])]))
    v.ensure('upper bound is attained', disj([conj([eqv(ul, dl)]), conj([eqv(ul, dh)])]))
    v.ensure('global lower value is not above the bounds', gl <= ll)
    v.ensure_eq('global lower value is the minimum', gl, d0)
    v.ensure_eq('global minimum function', mn, d0)


@unit('C16', functions=['ctbayes.ito.models.ou:eval_bounds_disc', 'ctbayes.ito.models.ou:eval_inf_disc', 'ctbayes.ito.static:assemble_model.eval_disc'])
def ito_ou(v):
    p = m.ito('ou')
    thi = m.ito_thi(v, 'ou')
    lo, hi, x = v.real('lo'), v.real('hi'), v.real('x')
    v.assume(lo < hi, lo <= x, x <= hi)
    square_like(v, lambda x: v.call(p + 'eval_disc', thi, x), lo, hi, x, v.call(p + 'eval_bounds_disc', thi, lo, hi), v.call(p + 'eval_inf_disc', thi))


def swi(name):
    @unit('C16', name='switching_' + name, functions=[m.swi(name) + 'eval_bounds_disc', m.swi(name) + 'eval_inf_disc', 'ctbayes.switching.static:assemble_model.eval_disc'])
    def go(v):
        """with the parameters of the regime the segment starts in"""
        p = m.swi(name)
        thi, n = m.swi_thi(v, name)
        y = v.int('y', 0, n)
        lo, hi, x = v.real('lo'), v.real('hi'), v.real('x')
        v.assume(lo < hi, lo <= x, x <= hi)
        square_like(v, lambda x: v.call(p + 'eval_disc', thi, y, x), lo, hi, x, v.call(p + 'eval_bounds_disc', thi, y, lo, hi), v.call(p + 'eval_inf_disc', thi, y))


for nm in m.SWI: swi(nm)

CIR = ['ctbayes.ito.models.cir:eval_bounds_disc', 'ctbayes.ito.models.cir:f_argmin_disc', 'ctbayes.ito.static:assemble_model.eval_disc']


def cir_setup(v):
    p = m.ito('cir')
    thi = m.ito_thi(v, 'cir')
    t0, t1, t2 = [thi.get((i,)) for i in range(3)]
    a, b = 2 * t0 * t1 / (t2 * t2) - v.c_half, t0 / 2
    return p, thi, a, b


def disc_identity(v, p, thi, a, b, x):
    d = v.call(p + 'eval_disc', thi, x)
    v.ensure_eq('closed form of the discrepancy', d, (a * (a - 1) / (x * x) + b * b * x * x - 2 * a * b - b) / 2)
    return d


@unit('C16', functions=CIR[1:])
def cir_argmin(v):
    """the reported location minimises the discrepancy whenever a minimiser exists"""
    p, thi, a, b = cir_setup(v)
    v.assume(disj([a < 0, a > 1]))
    v.ensure('a minimiser exists', a * (a - 1) > 0)
    s = v.call(p + 'f_argmin_disc', thi)
    v.ensure('inside the state space', s > 0)
    q = s * s
    v.ensure_eq('stationarity', q * q * b * b, a * (a - 1))
    x = v.real('x', pos=True)
    dx, ds = disc_identity(v, p, thi, a, b, x), disc_identity(v, p, thi, a, b, s)
    v.ensure_eq('excess over the minimum', dx - ds, b * b * (x - q / x) * (x - q / x) / 2)
    v.ensure('minimal', ds <= dx)
    v.ensure_eq('global minimum function', v.call(p + 'eval_inf_disc', thi), ds)


@unit('C16', functions=CIR, slow=15)
def cir_monotone(v):
    """no interior minimum: the discrepancy increases, the edges are its bounds"""
    p, thi, a, b = cir_setup(v)
    lo, hi, x = v.real('lo', pos=True), v.real('hi'), v.real('x')
    v.assume(lo < hi, lo <= x, x <= hi, a >= 0, a <= 1)
    gl, ll, ul = v.call(p + 'eval_bounds_disc', thi, lo, hi)
    dl, dh, dx = [disc_identity(v, p, thi, a, b, z) for z in (lo, hi, x)]
    v.ensure('coefficient', a * (a - 1) <= 0)
    for nm, (z, dz), (w, dw) in (('from the left', (lo, dl), (x, dx)), ('to the right', (x, dx), (hi, dh))):
        v.ensure_eq('difference ' + nm, dw - dz, (w * w - z * z) * (b * b - a * (a - 1) / (z * z * w * w)) / 2)
        v.ensure('increases ' + nm, dz <= dw)
    v.ensure('lower bound', ll <= dx)
    v.ensure('upper bound', dx <= ul)
    v.ensure_eq('lower bound is attained', ll, dl)
    v.ensure_eq('upper bound is attained', ul, dh)
    v.ensure('no global minimum is claimed', v.is_nan(gl))


@unit('C16', functions=CIR, slow=15)
def cir_interior(v):
    """interior minimum: the bounds are edges or the minimum"""
    p, thi, a, b = cir_setup(v)
    lo, hi, x = v.real('lo', pos=True), v.real('hi'), v.real('x')
    v.assume(lo < hi, lo <= x, x <= hi, disj([a < 0, a > 1]))
    v.ensure('a minimiser exists', a * (a - 1) > 0)
    s = v.call(p + 'f_argmin_disc', thi)
    gl, ll, ul = v.call(p + 'eval_bounds_disc', thi, lo, hi)
    q = s * s
    v.ensure('inside the state space', s > 0)
    v.ensure_eq('stationarity', q * q * b * b, a * (a - 1))
    dl, dh, dx, ds = [disc_identity(v, p, thi, a, b, z) for z in (lo, hi, x, s)]
    for nm, z, dz in (('lower edge', lo, dl), ('upper edge', hi, dh), ('state', x, dx)):
        v.ensure_eq('excess over the minimum at the ' + nm, dz - ds, b * b * (z - q / z) * (z - q / z) / 2)
        v.ensure('minimal against the ' + nm, ds <= dz)
    v.ensure_eq('global lower value', gl, ds)
    for nm, (z, dz), (w, dw) in (('from the left', (lo, dl), (x, dx)), ('to the right', (x, dx), (hi, dh))):
        v.ensure_eq('difference ' + nm, (dw - dz) * (2 * z * z * w * w), (w * w - z * z) * b * b * (z * z * w * w - q * q))
        if v.cases(s <= z):
            v.ensure('product above the minimiser ' + nm, z * w >= q)
            v.ensure('squares above the minimiser ' + nm, z * z * w * w >= q * q)
            v.ensure('increases above the minimiser ' + nm, dz <= dw)
        elif v.cases(w <= s):
            v.ensure('product below the minimiser ' + nm, z * w <= q)
            v.ensure('squares below the minimiser ' + nm, z * z * w * w <= q * q)
            v.ensure('decreases below the minimiser ' + nm, dz >= dw)
    v.ensure('lower bound', ll <= dx)
    v.ensure('upper bound', dx <= ul)
    v.ensure('lower bound is attained', disj([conj([eqv(ll, dl)]), conj([eqv(ll, dh)]), conj([eqv(ll, ds), lo <= s, s <= hi])]))
    v.ensure('upper bound is attained', disj([conj([eqv(ul, dl)]), conj([eqv(ul, dh)])]))
    v.ensure('global lower value is not above the bounds', gl <= ll)
