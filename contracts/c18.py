"""C18: the dual coin and its intensity."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from pyvc.core import smin2, smax2, sabs, ite, compare, Sym
from . import _models as m
from ._seed import *


@unit('C18', functions=[SEED + 'flip_dual_coin'])
def dual_coin(v):
    """success exactly when no Poisson point lies below the one-sided difference in the asked direction"""
    seed = fresh_seed(v)
    T = v.real('T', pos=True)
    a, b, c, d = [v.real(k) for k in 'abcd']
    nil, prime = affine_ops(v, T, a, b), affine_ops(v, T, c, d)
    phi_nil, phi_prime = v.func('phi_nil'), v.func('phi_prime')
    inten = v.real('intensity', pos=True)
    up = v.choose(True, False)
    ome = v.gen()
    path = PathSpec(v, seed)
    path.ome, path.initial = ome, seed

    def gap(t):
        z = path.Z(t / T)
        pn, pp = phi_nil(nil[1](t / T, z)[1]), phi_prime(prime[1](t / T, z)[1])
        return smax2(pp - pn, 0) if up else smax2(pn - pp, 0)
    # the intensity dominates the change of discrepancy at all times of the bridge
    st = batches(v, path, lambda r, bx: conj([eqv(r, 1), len(bx) == 2, eqv(bx[0], inten), eqv(bx[1], T)]),
                 lambda A, i: gap(A.get((i, 1))) <= inten,
                 lambda n, A: v.forall('going on: no point of the batch is below', n, lambda i: gap(A.get((i, 1))) <= A.get((i, 0))))
    v.run.assumed.add('the intensity dominates the change of discrepancy along the bridge (established for the models by the intensity units)')
    bs = v.int('batch_size', 1)
    ok, new = v.call(SEED + 'flip_dual_coin', seed, inten, nil[0], nil[1], phi_nil, prime[0], prime[1], phi_prime, up, ome, bs)
    v.ensure('returns the latest refined seed', new is path.last)
    if v.cases(ok):
        v.ensure('success only after all batches', path_after_loop(st))
    else:
        v.ensure('failure only in a batch', 'n' in st)
        v.contradiction('failure only below the difference', lambda: v.known_all(st['n'], lambda i: gap(st['a'].get((i, 1))) <= st['a'].get((i, 0))))


def path_after_loop(st): return 'n' not in st


@unit('C18', functions=['ctbayes.ito.mcmc:flip_param_coin', 'ctbayes.ito.models.ou:eval_bounds_grad', 'ctbayes.ito.static:assemble_model.gen_normops'], slow=25)
def intensity_ito_ou(v):
    """intensity handed to the dual coin against the two discrepancies anywhere on the bridge"""
    p = m.ito('ou')
    th = [m.ito_thi(v, 'ou', 'thi_nil'), m.ito_thi(v, 'ou', 'thi_prime')]
    T = v.real('T', pos=True)
    v0, v1 = v.real('v0'), v.real('v1')
    mod = v.load('ctbayes.ito.models.ou')
    run_intensity(v, mod, th, T, v0, v1, 'ito', 'ou')


def run_intensity(v, mod, th, T, v0, v1, kind, name):
    # either edge of the layer may be the tight one
    g0, g1 = v.real('edge0'), v.real('edge1')
    seed = seed_cls(v)(v.vec('seed_s', 2), v.vec('seed_z', 2), g0, g1, v.real('hit_z'), None)
    got = []

    def dual(seed, intensity, norm_rsde_nil, denorm_rsde_nil, eval_disc_nil, norm_rsde_prime, denorm_rsde_prime, eval_disc_prime, upside, ome, batch_size):
        got.append((intensity, norm_rsde_nil, denorm_rsde_nil, eval_disc_nil, norm_rsde_prime, denorm_rsde_prime, eval_disc_prime, upside))
        v.ensure('the layered bridge is the one given', seed is sd)
        v.ensure('the generator is passed on', ome is g)
        return v.bool('success'), seed
    sd, g = seed, v.gen()
    v.contract(SEED + 'flip_dual_coin', dual)
    up = v.bool('upside')
    if kind == 'ito':
        K = v.load('ctbayes.ito.mcmc')
        t, vt = M.Arr.from_list([0, T]), M.Arr.from_list([v0, v1])
        md = K.Model(t, vt, None, None, None, mod.gen_normops, None, mod.eval_disc, mod.eval_bounds_disc, mod.eval_bounds_grad)
        ctrl = K.Controls()
        v.call(K.flip_param_coin, th[0], th[1], seed, md, ctrl, up, g)
        rows = [[t_.get((i,)) for i in range(2)] for t_ in th]
    else:
        K = v.load('ctbayes.switching.mcmc')
        md = K.Model(None, None, None, None, None, None, mod.gen_normops, None, mod.eval_disc, mod.eval_bounds_disc, mod.eval_bounds_grad)
        y = v.y
        v.call(K.flip_param_coin, th[0], th[1], T, y, v0, v1, seed, md, K.Controls(), up, g)
        rows = [[t_.get((y, i)) for i in range(2)] for t_ in th]
    v.ensure('the dual coin is flipped once', len(got) == 1)
    inten, n0, d0, e0, n1, d1, e1, u = got[0]
    v.ensure('direction', u is up)
    s, z = v.real('s'), v.real('z')
    v.assume(s >= 0, s <= 1, (z - g0) * (g1 - z) >= 0)
    S, Z = M.Arr.from_list([s]), M.Arr.from_list([z])
    x0, x1 = d0(S, Z)[1], d1(S, Z)[1]
    f0, f1 = e0(x0).get((0,)), e1(x1).get((0,))
    rt = core.ssqrt(T)
    w = v0 + s * (v1 - v0)
    # magnitudes
    zb, vb = smax2(sabs(g0), sabs(g1)), smax2(sabs(v0), sabs(v1))
    v.ensure('layer bounds the standardised value', sabs(z) <= zb)
    v.ensure('the line between the ends stays below the larger end', sabs(w) <= vb)
    v.ensure('root of the duration', conj([rt > 0, eqv(rt * rt, T)]))
    F0, F1 = STEPS[name](v, rows[0], rows[1], rt, z, w, zb, vb, f0, f1, inten)
    v.step('intensity is at least the difference', [eqv(f0, F0), eqv(f1, F1), sabs(F1 - F0) <= inten], conj([f1 - f0 <= inten, f0 - f1 <= inten]), [f0, f1, inten])


def common(v, rt, z, w, zb, vb):
    """products of magnitudes"""
    a, b = v.define('rtz', rt * z), v.define('rtzb', rt * zb)
    v.step('scaled layer value', [rt > 0, sabs(z) <= zb, eqv(a, rt * z), eqv(b, rt * zb)], [sabs(a) <= b, b >= 0], [z, rt, zb])
    return a, b


def steps_ou(v, p, q, rt, z, w, zb, vb, f0, f1, inten):
    """discrepancy (b^2 x^2 - b)/2 at x = rt z + w/s; first b moves, then s"""
    az, bz = common(v, rt, z, w, zb, vb)
    (b0, s0), (b1, s1) = p, q
    sm, bm = v.define('s_min', smin2(s0, s1)), v.define('b_max', smax2(b0, b1))
    v.ensure('smaller volatility', conj([sm > 0, sm <= s0, sm <= s1]))
    v.ensure('larger rate', conj([bm >= b0, bm >= b1, b0 > 0, b1 > 0]))
    u0, u1, um = v.define('u0', 1 / s0), v.define('u1', 1 / s1), v.define('um', 1 / sm)
    v.step('inverse volatilities', [sm > 0, sm <= s0, sm <= s1, eqv(u0 * s0, 1), eqv(u1 * s1, 1), eqv(um * sm, 1)], [u0 > 0, u1 > 0, u0 <= um, u1 <= um], [s0, s1])
    x0, x1 = v.define('x0', az + w * u0), v.define('x1', az + w * u1)
    C = v.define('C', bz + vb * um)
    v.step('state 0 is bounded', [sabs(az) <= bz, sabs(w) <= vb, u0 > 0, u0 <= um, eqv(x0, az + w * u0), eqv(C, bz + vb * um)], sabs(x0) <= C, [w, vb])
    v.step('state 1 is bounded', [sabs(az) <= bz, sabs(w) <= vb, u1 > 0, u1 <= um, eqv(x1, az + w * u1), eqv(C, bz + vb * um)], sabs(x1) <= C, [w, vb])
    F0, F1, Fm = v.define('F0', (b0 * b0 * x0 * x0 - b0) / 2), v.define('F1', (b1 * b1 * x1 * x1 - b1) / 2), v.define('Fm', (b1 * b1 * x0 * x0 - b1) / 2)
    v.ensure_eq('discrepancy at the current parameter', f0, F0)
    v.ensure_eq('discrepancy at the proposed parameter', f1, F1)
    D1, D2 = v.define('D1', bm * C * C + v.c_half), v.define('D2', bm * bm * C * vb * um * um)
    ab, as_ = v.define('abs_db', sabs(b1 - b0)), v.define('abs_ds', sabs(s1 - s0))
    h = v.define('half_sum', (b0 + b1) / 2)
    xx = v.define('x0_sq', x0 * x0); CC = v.define('C_sq', C * C)
    v.step('square of the state', [sabs(x0) <= C, eqv(xx, x0 * x0), eqv(CC, C * C)], [xx <= CC, xx >= 0])
    k = v.define('k', h * xx - v.c_half)
    v.step('slope in the rate', [xx <= CC, xx >= 0, h > 0, h <= bm, eqv(k, h * xx - v.c_half), eqv(D1, bm * CC + v.c_half)], [sabs(k) <= D1, D1 >= 0])
    v.ensure_eq('rate part', Fm - F0, (b1 - b0) * k)
    v.step('rate part is dominated', [sabs(k) <= D1, D1 >= 0, eqv(ab, sabs(b1 - b0)), eqv(Fm - F0, (b1 - b0) * k)], sabs(Fm - F0) <= ab * D1, [Fm, F0])
    su = v.define('su', x1 + x0); di = v.define('di', x1 - x0)
    v.step('sum of the states', [sabs(x0) <= C, sabs(x1) <= C, eqv(su, x1 + x0)], sabs(su) <= 2 * C)
    uu, mm = v.define('uu', u0 * u1), v.define('mm', um * um)
    v.step('product of inverses', [u0 > 0, u1 > 0, u0 <= um, u1 <= um, eqv(uu, u0 * u1), eqv(mm, um * um)], [uu <= mm, uu > 0])
    v.ensure_eq('difference of the states', di, w * (s0 - s1) * uu)
    wu = v.define('wu', w * uu); vm = v.define('vm', vb * mm)
    v.step('weighted line', [sabs(w) <= vb, uu <= mm, uu > 0, eqv(wu, w * uu), eqv(vm, vb * mm)], [sabs(wu) <= vm, vm >= 0])
    v.step('difference is dominated', [sabs(wu) <= vm, vm >= 0, eqv(di, (s0 - s1) * wu), eqv(as_, sabs(s1 - s0))], sabs(di) <= as_ * vm)
    asv = v.define('asv', as_ * vm)
    pr = v.define('pr', di * su)
    v.step('product is dominated', [sabs(di) <= asv, sabs(su) <= 2 * C, eqv(pr, di * su)], sabs(pr) <= 2 * asv * C)
    bb, BB = v.define('bb', b1 * b1), v.define('BB', bm * bm)
    v.step('squared rate', [b1 > 0, b1 <= bm, eqv(bb, b1 * b1), eqv(BB, bm * bm)], [bb <= BB, bb > 0])
    v.ensure_eq('volatility part', F1 - Fm, bb * pr / 2)
    P = v.define('P', 2 * asv * C)
    v.step('volatility part is dominated', [sabs(pr) <= P, bb <= BB, bb > 0, eqv(F1 - Fm, bb * pr / 2)], sabs(F1 - Fm) <= BB * P / 2, [F1, Fm])
    v.ensure_eq('volatility slope', BB * P / 2, as_ * D2)
    v.step('slopes', [ab >= 0, as_ >= 0, D1 >= 0, BB * P >= 0, eqv(BB * P / 2, as_ * D2), BB > 0, P >= 0], as_ * D2 >= 0)
    return finish(v, p, q, ab, as_, D1, D2, F0, Fm, F1, f0, f1, inten)


def finish(v, p, q, da, db, D1, D2, F0, Fm, F1, f0, f1, inten):
    """what is being updated"""
    e0, e1 = v.cases(p[0] == q[0]), v.cases(p[1] == q[1])
    if e0: v.ensure_eq('no first part', Fm, F0)
    if e1: v.ensure_eq('no second part', F1, Fm)
    v.ensure('second slope', D2 >= 0)
    want = (0 if e0 else da) + (0 if e1 else db)
    want = want * ((0 if e0 else D1) + (0 if e1 else D2)) if not (e0 and e1) else 0
    v.hint(eqv(inten, want))
    v.ensure('intensity', inten >= want)
    v.step('total', [sabs(Fm - F0) <= (0 if e0 else da * D1), sabs(F1 - Fm) <= (0 if e1 else db * D2), da >= 0, db >= 0, D1 >= 0, D2 >= 0, inten >= want], sabs(F1 - F0) <= inten, [inten])
    return F0, F1



def prod(v, name, x, X, y, Y):
    """|x| <= X and |y| <= Y give |x y| <= X Y; returns names for both products"""
    a, b = v.define(name, x * y), v.define(name + '_ub', X * Y)
    v.step(name + ' is dominated', [sabs(x) <= X, sabs(y) <= Y, eqv(a, x * y), eqv(b, X * Y)], [sabs(a) <= b, b >= 0], [x, X, y, Y])
    return a, b


def two_steps(v, p, q, F, k1, D1, k2, D2, f0, f1, inten):
    """the difference split into a move of the first and a move of the second parameter, with slopes k1, k2"""
    F0, Fm, F1 = [v.define(n, x) for n, x in zip(('F0', 'Fm', 'F1'), F)]
    v.ensure_eq('discrepancy at the current parameter', f0, F0)
    v.ensure_eq('discrepancy at the proposed parameter', f1, F1)
    da, db = v.define('da', sabs(q[0] - p[0])), v.define('db', sabs(q[1] - p[1]))
    v.ensure_eq('first move', Fm - F0, (q[0] - p[0]) * k1)
    v.ensure_eq('second move', F1 - Fm, (q[1] - p[1]) * k2)
    v.step('first move is dominated', [sabs(k1) <= D1, eqv(da, sabs(q[0] - p[0])), eqv(Fm - F0, (q[0] - p[0]) * k1)], [sabs(Fm - F0) <= da * D1, da >= 0, D1 >= 0], [Fm, F0, k1, D1])
    v.step('second move is dominated', [sabs(k2) <= D2, eqv(db, sabs(q[1] - p[1])), eqv(F1 - Fm, (q[1] - p[1]) * k2)], [sabs(F1 - Fm) <= db * D2, db >= 0, D2 >= 0], [F1, Fm, k2, D2])
    return finish(v, p, q, da, db, D1, D2, F0, Fm, F1, f0, f1, inten)


def maxes(v, p, q):
    a, b = v.define('max0', smax2(p[0], q[0])), v.define('max1', smax2(p[1], q[1]))
    v.ensure('larger parameters', conj([a >= p[0], a >= q[0], b >= p[1], b >= q[1], p[0] > 0, q[0] > 0, p[1] > 0, q[1] > 0, a > 0, b > 0]))
    return a, b


def steps_sou(v, p, q, rt, z, w, zb, vb, f0, f1, inten):
    """discrepancy (b^2 X^2 - b)/2 at X = rt z + g w"""
    az, bz = common(v, rt, z, w, zb, vb)
    (b0, g0), (b1, g1) = p, q
    bm, gm = maxes(v, p, q)
    gw0, gv = prod(v, 'gw0', g0, gm, w, vb)
    gw1, gv1 = prod(v, 'gw1', g1, gm, w, vb)
    X0, X1, C = v.define('X0', az + gw0), v.define('X1', az + gw1), v.define('C', bz + gv)
    v.step('states', [sabs(az) <= bz, sabs(gw0) <= gv, sabs(gw1) <= gv1, eqv(gv, gm * vb), eqv(gv1, gm * vb), eqv(X0, az + gw0), eqv(X1, az + gw1), eqv(C, bz + gv)], [sabs(X0) <= C, sabs(X1) <= C])
    XX, CC = prod(v, 'XX', X0, C, X0, C)
    h = v.define('h', (b0 + b1) / 2)
    hX, bC = prod(v, 'hX', h, bm, XX, CC)
    k1, D1 = v.define('k1', hX - v.c_half), v.define('D1', bC + v.c_half)
    v.step('first slope', [sabs(hX) <= bC, eqv(k1, hX - v.c_half), eqv(D1, bC + v.c_half)], sabs(k1) <= D1)
    su = v.define('su', (X0 + X1) / 2)
    v.step('mean state', [sabs(X0) <= C, sabs(X1) <= C, eqv(su, (X0 + X1) / 2)], sabs(su) <= C)
    wX, vC = prod(v, 'wX', w, vb, su, C)
    bb, BB = prod(v, 'bb', b1, bm, b1, bm)
    k2, D2 = prod(v, 'k2', bb, BB, wX, vC)
    return two_steps(v, p, q, ((b0 * b0 * X0 * X0 - b0) / 2, (b1 * b1 * X0 * X0 - b1) / 2, (b1 * b1 * X1 * X1 - b1) / 2), k1, D1, k2, D2, f0, f1, inten)


def steps_sou2(v, p, q, rt, z, w, zb, vb, f0, f1, inten):
    """discrepancy (X^2 - b)/2 at X = b rt z + l w"""
    az, bz = common(v, rt, z, w, zb, vb)
    (b0, l0), (b1, l1) = p, q
    bm, lm = maxes(v, p, q)
    A = [prod(v, 'bz%d' % i, b, bm, az, bz) for i, b in enumerate((b0, b1))]
    W = [prod(v, 'lw%d' % i, l, lm, w, vb) for i, l in enumerate((l0, l1))]
    C = v.define('C', bm * bz + lm * vb)
    X = []
    for n, i, j in (('X0', 0, 0), ('Xm', 1, 0), ('X1', 1, 1)):
        x = v.define(n, A[i][0] + W[j][0])
        v.step(n + ' is bounded', [sabs(A[i][0]) <= A[i][1], sabs(W[j][0]) <= W[j][1], eqv(A[i][1], bm * bz), eqv(W[j][1], lm * vb), eqv(C, bm * bz + lm * vb), eqv(x, A[i][0] + W[j][0])], sabs(x) <= C)
        X.append(x)
    X0, Xm, X1 = X
    s1, s2 = v.define('s1', (X0 + Xm) / 2), v.define('s2', (Xm + X1) / 2)
    v.step('mean states', [sabs(X0) <= C, sabs(X1) <= C, sabs(Xm) <= C, eqv(s1, (X0 + Xm) / 2), eqv(s2, (Xm + X1) / 2)], [sabs(s1) <= C, sabs(s2) <= C])
    aX, bC = prod(v, 'aX', az, bz, s1, C)
    k1, D1 = v.define('k1', aX - v.c_half), v.define('D1', bC + v.c_half)
    v.step('first slope', [sabs(aX) <= bC, eqv(k1, aX - v.c_half), eqv(D1, bC + v.c_half)], sabs(k1) <= D1)
    k2, D2 = prod(v, 'k2', w, vb, s2, C)
    return two_steps(v, p, q, ((X0 * X0 - b0) / 2, (Xm * Xm - b1) / 2, (X1 * X1 - b1) / 2), k1, D1, k2, D2, f0, f1, inten)


def steps_sou3(v, p, q, rt, z, w, zb, vb, f0, f1, inten):
    """discrepancy (l^2 X^2 - r l)/2 at X = r rt z + w"""
    az, bz = common(v, rt, z, w, zb, vb)
    (r0, l0), (r1, l1) = p, q
    rm, lm = maxes(v, p, q)
    ra0, rb = prod(v, 'ra0', r0, rm, az, bz)
    ra1, rb1 = prod(v, 'ra1', r1, rm, az, bz)
    X0, X1, C = v.define('X0', ra0 + w), v.define('X1', ra1 + w), v.define('C', rb + vb)
    v.step('states', [sabs(w) <= vb, sabs(ra0) <= rb, sabs(ra1) <= rb1, eqv(rb, rm * bz), eqv(rb1, rm * bz), eqv(X0, ra0 + w), eqv(X1, ra1 + w), eqv(C, rb + vb)], [sabs(X0) <= C, sabs(X1) <= C])
    su = v.define('su', (X0 + X1) / 2)
    v.step('mean state', [sabs(X0) <= C, sabs(X1) <= C, eqv(su, (X0 + X1) / 2)], sabs(su) <= C)
    aX, bC = prod(v, 'aX', az, bz, su, C)
    ll, LL = prod(v, 'll', l0, lm, l0, lm)
    la, lb = prod(v, 'la', ll, LL, aX, bC)
    k1, D1 = v.define('k1', la - l0 / 2), v.define('D1', lb + lm / 2)
    v.step('first slope', [sabs(la) <= lb, l0 > 0, l0 <= lm, eqv(k1, la - l0 / 2), eqv(D1, lb + lm / 2)], sabs(k1) <= D1)
    XX, CC = prod(v, 'XX', X1, C, X1, C)
    h = v.define('h', (l0 + l1) / 2)
    hX, lC = prod(v, 'hX', h, lm, XX, CC)
    k2, D2 = v.define('k2', hX - r1 / 2), v.define('D2', lC + rm / 2)
    v.step('second slope', [sabs(hX) <= lC, r1 > 0, r1 <= rm, eqv(k2, hX - r1 / 2), eqv(D2, lC + rm / 2)], sabs(k2) <= D2)
    return two_steps(v, p, q, ((l0 * l0 * X0 * X0 - r0 * l0) / 2, (l0 * l0 * X1 * X1 - r1 * l0) / 2, (l1 * l1 * X1 * X1 - r1 * l1) / 2), k1, D1, k2, D2, f0, f1, inten)


STEPS = {'ou': steps_ou, 's_ou': steps_sou, 's_ou2': steps_sou2, 's_ou3': steps_sou3}


def swi_unit(name):
    @unit('C18', name='intensity_switching_' + name, functions=['ctbayes.switching.mcmc:flip_param_coin', m.swi(name) + 'eval_bounds_grad', 'ctbayes.switching.static:assemble_model.gen_normops'], slow=25)
    def u(v):
        """intensity handed to the dual coin against the two discrepancies anywhere on the bridge"""
        n = v.dim('regimes', 1)
        p, _ = m.swi_thi(v, name, 'thi_nil', n)
        q, _ = m.swi_thi(v, name, 'thi_prime', n)
        y = v.int('y', 0, n)
        v.y = y
        run_intensity(v, v.load('ctbayes.switching.models.' + name), [p, q], v.real('T', pos=True), v.real('v0'), v.real('v1'), 'switching', 's_' + name)


for _n in m.SWI: swi_unit(_n)


@unit('C18', functions=['ctbayes.ito.mcmc:flip_param_coin', 'ctbayes.ito.models.cir:eval_bounds_grad'], modes=('unbounded',), slow=3)
def intensity_ito_cir(v):
    """the cir model: the intensity is positive when the parameters differ (known finding: the bounds are a stub)"""
    th = [m.ito_thi(v, 'cir', 'thi_nil'), m.ito_thi(v, 'cir', 'thi_prime')]
    T = v.real('T', pos=True)
    v0, v1 = v.real('v0', pos=True), v.real('v1', pos=True)
    mod = v.load('ctbayes.ito.models.cir')
    got = []
    K = v.load('ctbayes.ito.mcmc')
    v.contract(SEED + 'flip_dual_coin', lambda seed, intensity, **k: (got.append(intensity), (v.bool('success'), seed))[1])
    seed = seed_cls(v)(v.vec('seed_s', 2), v.vec('seed_z', 2), v.real('g0', pos=True), -v.real('g1', pos=True), None, None)
    md = K.Model(M.Arr.from_list([0, T]), M.Arr.from_list([v0, v1]), None, None, None, mod.gen_normops, None, mod.eval_disc, mod.eval_bounds_disc, mod.eval_bounds_grad)
    v.assume(disj([t0.get((i,)) < t1.get((i,)) for i in range(3) for t0, t1 in (th, th[::-1])]))
    v.call(K.flip_param_coin, th[0], th[1], seed, md, K.Controls(), True, v.gen())
    v.ensure('[cir_bounds_grad] the intensity is positive when the parameters differ', conj([len(got) == 1, got[0] > 0]))
