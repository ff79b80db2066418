"""C09: escape decisions by alternating series."""
from pyvc.runner import unit, eqv, conj, disj, implies, iff, truth
from pyvc import core, npmodel as M
from pyvc.core import sexp, smin2, smax2, sabs, compare
from pyvc.instrument import Seq
from ._spec import *

BR, BE = H + 'series_brownbr_esc', H + 'series_bessel3br_esc'


def up(j, u, a, b, T): return sexp(-2 * (u * (2 * j - 1) - a) * (u * (2 * j - 1) - b) / T)
def down(j, u, a, b, T): return sexp(-2 * j * (4 * u ** 2 * j + 2 * u * (a - b)) / T)


# ------------------------------------------------------------------ Brownian bridge, without a known bound
@unit('C09', functions=[BR])
def brownian_partial_sums(v):
    """the k-th value is the k-th partial sum of the alternating series of the escape probability"""
    T, u, a, b = v.real('T', pos=True), v.real('u', pos=True), v.real('a'), v.real('b')
    v.assume(a < u, -u < a, b < u, -u < b)
    S = v.func('S', 1)
    v.assume(compare('==', S(0), 0))
    st = v.invariant({'s': (lambda x: M.is_num(x) and x == 0, lambda: v.real('s'))}, lambda d, k: eqv(d['s'], S(k)), 'running sum')
    def term(k):        # the (k+1)-th term, k >= 0
        j = (k + 2) // 2
        U = up(j, u, a, b, T) + up(j, u, -a, -b, T)
        j = (k + 1) // 2
        D = down(j, u, a, b, T) + down(j, u, -a, -b, T)
        return U, D
    gen = v.call(BR, T, a, b, u)
    val = next(gen)
    k = st['loop'].index
    U, D = term(k)
    if v.cases(k % 2 == 0): v.assume(compare('==', S(k + 1), S(k) + U))
    else: v.assume(compare('==', S(k + 1), S(k) - D))
    v.ensure_eq('partial sum', val, S(k + 1))
    next(gen)


@unit('C09', functions=[BR])
def brownian_terms_decrease(v):
    """lemma: each term of the series is at most the one before, so that partial sums bracket the limit"""
    T, u, a, b = v.real('T', pos=True), v.real('u', pos=True), v.real('a'), v.real('b')
    v.assume(a < u, -u < a, b < u, -u < b)
    j = v.int('j', 1)
    for x, y, s in ((a, b, '+'), (-a, -b, '-')):
        U, D, U1 = up(j, u, x, y, T), down(j, u, x, y, T), up(j + 1, u, x, y, T)
        v.ensure(s + ' gap', conj([(u + x) * (4 * u * j - u - y) >= 0, 4 * u * j * (u - x) + (u - x) * (u - y) >= 0]))
        v.ensure(s + ' up at least down', U >= D)
        v.ensure(s + ' down at least the next up', D >= U1)
        v.ensure(s + ' positive', U1 > 0)


class Series:
    """series_brownbr_esc / series_bessel3br_esc as a contract: the k-th value is an upper bound of the escape
    probability for odd k and a lower bound for even k (counting from one)"""
    def __init__(self, v, name, bracket=True):
        self.v, self.name, self.bracket = v, name, bracket
        self.S, self.P = v.func(name, 1), v.real('prob_' + name)
        v.assume(self.P >= 0, self.P < 1)
        v.assume(compare('==', self.S(0), 0))
        self.calls, self.facts, self.taken = [], [], []

    def brackets(self, i):
        """the i-th value lies on its side of the limit"""
        return disj([conj([compare('==', i % 2, 1), self.S(i) >= self.P]), conj([compare('==', i % 2, 0), self.S(i) <= self.P])])

    def at(self, k):
        i = M.norm_dim(k + 1)
        if self.bracket is True: self.v.assume(self.brackets(i))
        else:
            self.v.assume(implies(self.bracket, self.brackets(i)))
            for q in self.taken: self.v.assume(implies(conj([started(q, self.S), q <= i]), self.brackets(i)))
        self.taken.append(i)
        return self.S(i)

    def seq(self): return Seq(self.at)


def started(i, S):
    """a value from which on the series from the origin brackets its limit"""
    return disj([conj([compare('==', i % 2, 1), S(i) < 1]), eqv(S(i), S(i - 1))])


def decision(v, target, series, positive, bessel):
    T, u, a, b = v.real('T', pos=True), v.real('u', pos=True), v.real('a'), v.real('b')
    if bessel:
        v.assume(b > 0)
        if positive == 'zero': a = 0
        elif positive: v.assume(a > 0)
    bounded = v.choose(False, True)
    ub = v.real('ub') if bounded else None
    ome = v.gen()
    if v.choose(True, False):
        U, kw = v.real('seed'), 'given'
        v.assume(U >= 0, U <= 1)
    else: U, kw = None, 'drawn'
    if not bessel and bounded: v.assume(ub >= smax2(sabs(a), sabs(b)))
    if bessel and bounded: v.assume(ub >= smax2(a, b))
    hard = bessel and not positive or positive == 'zero'
    S = Series(v, 'S', bracket=True)
    def contract(fin_t, init_x, fin_x, ue_x, ub_x=None):
        v.ensure('series of this bridge', conj([eqv(fin_t, T), eqv(init_x, a), eqv(fin_x, b), eqv(ue_x, u), eqv(ub_x, ub) if bounded and ub_x is not None else (ub_x is None) == (ub is None)]))
        v.ensure('the ends lie inside the level', conj([sabs(a) < u, sabs(b) < u]))
        if bounded: v.ensure('the known bound is beyond the level', ub >= u)
        S.calls.append(1)
        if hard: S.bracket = T < 3 * u ** 2
        return S.seq()
    v.contract(series, contract)
    ff = {}
    if bessel:
        ff = v.invariant({'values so far': (lambda x: isinstance(x, list) and len(x) == 1 and x[0] == 0, lambda: M.SymList(M.norm_dim(v.c.loop.index + 1), lambda j: S.S(j)))},
                    lambda d, k: seq_is(v, d['values so far'], k, S), 'values so far')
    def undecided(loop, carried):
        # the last value looked at does not decide
        if loop is ff.get('loop') or not S.taken or not (S.bracket is True or v.entails(S.bracket)): return
        i = S.taken[-1]
        seed = U if kw == 'given' else v.drawn('U')[0].value
        v.ensure('goes on only when undecided', disj([conj([compare('==', i % 2, 1), S.S(i) >= seed]), conj([compare('==', i % 2, 0), S.S(i) <= seed])]))
    v.on_fallthrough(undecided)
    r = v.call(target, T, a, b, u, ub, U, ome)
    if kw == 'drawn':
        v.ensure('one uniform is drawn', len(v.drawn('U')) == 1 and len(v.drawn()) == 1)
        U = v.drawn('U')[0].value
    else: v.ensure('nothing is drawn', not v.drawn())
    out = disj([sabs(a) >= u, sabs(b) >= u])
    if not S.calls:
        v.ensure('immediate only when decided', disj([out, ub < u]) if bounded else out)
        v.ensure('touching the level is an escape', implies(out, r))
        if bounded: v.ensure('a bound below the level is none', implies(conj([Sym_not(out), ub < u]), Sym_not(r)))
    else:
        v.ensure('escape exactly when the seed is below the probability', conj([implies(r, U < S.P), implies(Sym_not(r), U > S.P)]))


def Sym_not(x):
    import z3
    return core.Sym(z3.Not(truth(x)))


def seq_is(v, l, k, S):
    n = v_len(l)
    conds = [eqv(n, k + 1)]
    if isinstance(l, list): return conds + [eqv(x, S.S(j)) for j, x in enumerate(l)]
    j = v.index(n, 'place')
    return conds + [eqv(l.elem(j), S.S(j))]


def v_len(l): return len(l) if isinstance(l, list) else l.n


@unit('C09', functions=[H + 'sample_brownbr_esc'])
def brownian_decision(v):
    """with bracketing series values: escape exactly when the seed lies below the escape probability"""
    decision(v, H + 'sample_brownbr_esc', BR, None, False)


@unit('C09', functions=[H + 'sample_bessel3br_esc'])
def bessel_decision_origin(v):
    decision(v, H + 'sample_bessel3br_esc', BE, 'zero', True)


@unit('C09', functions=[H + 'sample_bessel3br_esc'])
def bessel_decision_positive(v):
    decision(v, H + 'sample_bessel3br_esc', BE, True, True)


# ------------------------------------------------------------------ Brownian bridge below a known bound
def above(f): return lambda k: f(k) > 0


def ratio(r, s): return core.ite(s < 1, 1 - (1 - r) / (1 - s), 0)


def under_bound(v, target, a, b, bracket=True):
    """given that the larger level is not left: values bracket 1 - (1 - P_u) / (1 - P_ub)"""
    T, u, ub = v.real('T', pos=True), v.real('u', pos=True), v.real('ub')
    v.assume(ub > u)
    lv = {}
    def contract(fin_t, init_x, fin_x, ue_x, ub_x=None):
        v.ensure('the same bridge, without a bound', conj([eqv(fin_t, T), eqv(init_x, a), eqv(fin_x, b), ub_x is None]))
        w = 'u' if v.cases(eqv(ue_x, u)) else 'ub'
        if w == 'ub': v.ensure('one series per level', eqv(ue_x, ub))
        lv[w] = Series(v, 'S_' + w, bracket)
        return lv[w].seq()
    f = v.fn(target)
    v.contract(target, contract)
    return T, u, ub, lv, f


@unit('C09', functions=[BR])
def brownian_under_bound(v):
    a, b = v.real('a'), v.real('b')
    T, u, ub, lv, f = under_bound(v, BR, a, b)
    v.assume(a < u, -u < a, b < u, -u < b)
    val = next(v.call(f, T, a, b, u, ub))
    bracket_of_ratio(v, val, lv['u'], lv.get('ub', lv['u']))


def bracket_of_ratio(v, val, U, B, bracket=True):
    i = U.taken[-1]
    r, s, P, Q = U.S(i), B.S(i + 1), U.P, B.P
    v.ensure('the bound is looked at one step later', eqv(B.taken[-1], i + 1))
    v.ensure_eq('probability of escaping, below the bound', val, ratio(r, s))
    if not bracket: return
    v.assume(Q <= P)        # leaving the larger level means leaving the smaller one
    p = v.define('P', 1 - (1 - P) / (1 - Q))
    odd = v.cases(i % 2 == 1)
    if odd:
        v.ensure('later value of the bound is below one', s < 1)
        v.ensure('upper bound', val >= p)
    else: v.ensure('lower bound', val <= p)


# ------------------------------------------------------------------ Bessel bridge
@unit('C09', functions=[BE])
def bessel_from_positive(v):
    """an exact transform of the Brownian series: the bridge conditioned not to hit zero"""
    T, u, a, b = v.real('T', pos=True), v.real('u', pos=True), v.real('a', pos=True), v.real('b', pos=True)
    v.assume(a < u, b < u)
    S = Series(v, 'S')
    def contract(fin_t, init_x, fin_x, ue_x, ub_x=None):
        v.ensure('the bridge between zero and the level, centred', conj([eqv(fin_t, T), eqv(ue_x, u / 2), ub_x is None,
                 disj([conj([eqv(init_x, a - u / 2), eqv(fin_x, b - u / 2)]), conj([eqv(init_x, u / 2 - a), eqv(fin_x, u / 2 - b)])])]))
        return S.seq()
    v.contract(BR, contract)
    gen = v.call(BE, T, a, b, u)
    val = next(gen)
    i = S.taken[-1]
    z = v.define('q', sexp(-2 * a * b / T))
    v.hint(v.expand(z.e)) if False else None
    v.ensure('not hitting zero is uncertain', conj([z > 0, z < 1]))
    v.ensure_eq('given that zero is not hit', val, 1 - (1 - S.S(i)) / (1 - z))
    p = 1 - (1 - S.P) / (1 - z)
    if v.cases(i % 2 == 1): v.ensure('upper bound', val >= p)
    else: v.ensure('lower bound', val <= p)


def G(z, b, T): return z / b * sexp((b * b - z * z) / (2 * T))


@unit('C09', functions=[BE])
def bessel_from_origin(v):
    """the k-th value is the k-th partial sum of the alternating series with terms G(2uj - b), G(2uj + b)"""
    T, u, b = v.real('T', pos=True), v.real('u', pos=True), v.real('b', pos=True)
    v.assume(b < u)
    S = v.func('S', 1)
    v.assume(compare('==', S(0), 0))
    st = v.invariant({'s': (lambda x: M.is_num(x) and x == 0, lambda: v.real('s'))}, lambda d, k: eqv(d['s'], S(k)), 'running sum')
    gen = v.call(BE, T, 0, b, u)
    val = next(gen)
    k = st['loop'].index
    if v.cases(k % 2 == 0): v.assume(compare('==', S(k + 1), S(k) + G(2 * u * ((k + 2) // 2) - b, b, T)))
    else: v.assume(compare('==', S(k + 1), S(k) - G(2 * u * ((k + 1) // 2) + b, b, T)))
    v.ensure_eq('partial sum', val, S(k + 1))
    next(gen)


@unit('C09', functions=[BE])
def bessel_touching(v):
    """no values when the level lies between the ends"""
    T, u, a, b = v.real('T', pos=True), v.real('u', pos=True), v.real('a', nonneg=True), v.real('b', pos=True)
    v.assume(smin2(a, b) <= u, u <= smax2(a, b))
    v.ensure('no values', list(v.call(BE, T, a, b, u, *v.choose((), (v.real('ub', pos=True),)))) == [])


@unit('C09', functions=[BE])
def bessel_under_bound_positive(v):
    a, b = v.real('a', pos=True), v.real('b', pos=True)
    T, u, ub, lv, f = under_bound(v, BE, a, b)
    v.assume(a < u, b < u)
    val = next(v.call(f, T, a, b, u, ub))
    bracket_of_ratio(v, val, lv['u'], lv.get('ub', lv['u']))


@unit('C09', functions=[BE])
def bessel_under_bound_origin(v):
    """from the origin; for T < 3u^2 both series bracket from the first value (lemmas G_small_duration, falls_on),
    for other T see bessel_under_bound_started"""
    b = v.real('b', pos=True)
    calm = v.choose(True, False)
    T, u, ub, lv, f = under_bound(v, BE, 0, b, calm)
    v.assume(b < u, T < 3 * u ** 2 if calm else T >= 3 * u ** 2)
    val = next(v.call(f, T, 0, b, u, ub))
    bracket_of_ratio(v, val, lv['u'], lv.get('ub', lv['u']), calm)


@unit('C09', functions=[BE])
def bessel_under_bound_started(v):
    """lemma: from the origin, any T: once a value shows that the terms of the inner series fall
    (an odd one below one, or one equal to its predecessor), the quotients bracket their limit from there on"""
    r, s = v.func('r', 1), v.func('s', 1)
    P, Q = v.real('P', nonneg=True), v.real('Q', nonneg=True)
    v.assume(P < 1, Q <= P)
    i, m = v.int('i', 1), v.int('m', 1)
    v.assume(m >= i)
    fall_r, fall_s = above(v.func('falls_u', 1)), above(v.func('falls_ub', 1))      # terms fall from this index on (an odd one)
    odd = lambda k: k % 2 == 1
    for S, F in ((r, fall_r), (s, fall_s)):
        for k in (i - 1, i, i + 1):
            v.assume(implies(conj([odd(k), S(k) < 1]), F(k)))           # below_one_falls
            v.assume(implies(Sym_not(odd(k)), S(k) < 1))                # even_below_one
    for k in (i - 1, i):
        v.assume(implies(fall_r(k), fall_s(k)))                         # falls_on, for the larger level
        for S, F, X, q in ((r, fall_r, P, m), (s, fall_s, Q, m + 1)):
            v.assume(implies(conj([odd(k), F(k)]), conj([implies(odd(q), S(q) >= X), implies(Sym_not(odd(q)), S(q) <= X)])))
    c = lambda k: ratio(r(k), s(k + 1))
    oi, om = v.cases(odd(i)), v.cases(odd(m))
    v.cases(s(i) < 1), v.cases(s(i + 1) < 1), v.cases(s(m + 1) < 1)
    same = v.choose(True, False)
    if same: v.assume(i >= 2, eqv(c(i), c(i - 1)))
    else: v.assume(odd(i), c(i) < 1)
    k = i if oi else i - 1
    if not same or oi: v.ensure('inner value is below one', r(k) < 1)
    elif v.entails(s(i + 1) < 1): v.ensure('previous inner value is below one', r(k) < 1)
    v.ensure('terms of the inner series fall', conj([fall_r(k), fall_s(k)]))
    p = v.define('p', 1 - (1 - P) / (1 - Q))
    if om: v.ensure('upper bound', c(m) >= p)
    else: v.ensure('lower bound', c(m) <= p)


def G_lemmas(v, g, T, pts, gaps=()):
    """instances of the lemmas about G at the given places"""
    for z in pts:
        for w in pts:
            if z is w: continue
            v.assume(implies(conj([z > 0, z < w, w * w <= T]), g(z) < g(w)))
            v.assume(implies(conj([z > 0, z < w, z * z >= T]), g(z) > g(w)))
    for z, w, d in gaps: v.assume(implies(conj([z > 0, z <= w, d > 0, g(z) >= g(z + d)]), g(w) >= g(w + d)))


@unit('C09', functions=[BE])
def falls_on(v):
    """lemma: once the terms from the origin fall within a pair, they fall ever after, and for every larger level"""
    T, u, b = lemma_vars(v)
    x = v.real('x')
    v.assume(x >= u)
    g = v.func('G', 1)
    j, l = v.int('j', 1), v.int('l', 1)
    v.assume(l >= j)
    falls = lambda y, k: g(2 * y * k - b) >= g(2 * y * k + b)
    z, w = v.define('z', 2 * u * j - b), v.define('w', 2 * x * l - b)
    v.assume(g(z) >= g(z + 2 * b))
    v.ensure('order', conj([z > 0, z <= w, eqv(z + 2 * b, 2 * u * j + b), eqv(w + 2 * b, 2 * x * l + b)]))
    n = v.define('n', 2 * x * (l + 1) - b)
    v.ensure('next', n > w + 2 * b)
    G_lemmas(v, g, T, [w, w + 2 * b, n], [(z, w, 2 * b)])
    v.ensure('falls within the pair', g(w) >= g(w + 2 * b))
    v.ensure('falls to the next pair', g(w + 2 * b) >= g(n))


@unit('C09', functions=[BE])
def below_one_falls(v):
    """lemma, by induction over pairs: while terms rise within pairs, odd partial sums are at least one and even ones
    at most zero"""
    T, u, b = lemma_vars(v)
    g, S = v.func('G', 1), v.func('S', 1)
    v.assume(eqv(g(b), 1), eqv(S(0), 0))
    if v.choose(True, False):
        z = v.define('z', 2 * u - b)
        G_lemmas(v, g, T, [b, z, z + 2 * b])
        v.assume(g(z) < g(z + 2 * b), eqv(S(1), S(0) + g(z)), eqv(S(2), S(1) - g(z + 2 * b)))
        v.ensure('order', b < z)
        v.ensure('first pair', conj([S(1) >= 1, S(2) <= 0]))
    else:
        j = v.int('j', 1)
        z, w = v.define('z', 2 * u * j - b), v.define('w', 2 * u * (j + 1) - b)
        v.ensure('order', conj([z > 0, z + 2 * b < w]))
        G_lemmas(v, g, T, [z, z + 2 * b, w, w + 2 * b], [(z, w, 2 * b)])
        v.assume(g(w) < g(w + 2 * b))
        v.ensure('terms rise within the previous pair', g(z) < g(z + 2 * b))
        v.assume(S(2 * j - 1) >= 1, S(2 * j) <= 0)
        v.assume(eqv(S(2 * j), S(2 * j - 1) - g(z + 2 * b)), eqv(S(2 * j + 1), S(2 * j) + g(w)), eqv(S(2 * j + 2), S(2 * j + 1) - g(w + 2 * b)))
        v.ensure('next pair', conj([S(2 * j + 1) >= 1, S(2 * j + 2) <= 0]))


def lemma_vars(v):
    T, u, b = v.real('T', pos=True), v.real('u', pos=True), v.real('b', pos=True)
    v.assume(b < u)
    return T, u, b


def Gx(v, z, b, T, nm):
    """G(z) as z / b times a named exponential"""
    E = sexp((b * b - z * z) / (2 * T))
    e = v.define('e_' + nm, E)
    v.ensure(nm + ' positive', e > 0)
    g = v.define('G_' + nm, z / b * E)
    v.ensure_eq('G ' + nm, g * b, z * e)
    return e, g


@unit('C09', functions=[BE])
def G_rises_then_falls(v):
    """lemma: G rises up to the root of T and falls after it"""
    T, b, z, w = v.real('T', pos=True), v.real('b', pos=True), v.real('z', pos=True), v.real('w', pos=True)
    v.assume(z < w)
    rising = v.choose(True, False)
    v.assume(w * w <= T if rising else z * z >= T)
    d = v.define('d', (w * w - z * z) / (2 * T))
    v.ensure('twice the exponent', eqv(2 * d * T, w * w - z * z))
    (e1, g1), (e2, g2) = Gx(v, z, b, T, 'z'), Gx(v, w, b, T, 'w')
    D = (w * w - z * z) / (2 * T)
    if rising:
        v.step('exponent is small', [eqv(2 * d * T, w * w - z * z), w * w <= T, z > 0, z < w], 2 * d * w * w <= w * w - z * z)
        q = v.define('q', sexp(-D))
        v.ensure_eq('ratio of the exponentials', e2, e1 * q)
        v.ensure('exponential is above its tangent', q >= 1 - d)
        v.step('times w', [q >= 1 - d, 2 * d * w * w <= w * w - z * z, z > 0, z < w], w * q > z)
        v.step('rises', [w * q > z, e1 > 0, eqv(e2, e1 * q), eqv(g1 * b, z * e1), eqv(g2 * b, w * e2), b > 0], g1 < g2)
        v.ensure('G rises', G(z, b, T) < G(w, b, T))
    else:
        v.step('exponent is large', [eqv(2 * d * T, w * w - z * z), z * z >= T, T > 0, z > 0, z < w], [2 * d * z * z >= w * w - z * z, d > 0])
        q = v.define('q', sexp(D))
        v.ensure_eq('ratio of the exponentials', e1, e2 * q)
        v.ensure('exponential is above its tangent', q >= 1 + d)
        v.step('times z', [q >= 1 + d, 2 * d * z * z >= w * w - z * z, z > 0, z < w], z * q > w)
        v.step('falls', [z * q > w, e2 > 0, eqv(e1, e2 * q), eqv(g1 * b, z * e1), eqv(g2 * b, w * e2), b > 0], g1 > g2)
        v.ensure('G falls', G(z, b, T) > G(w, b, T))


@unit('C09', functions=[BE])
def G_quotient(v):
    """lemma: once G falls over a gap, it does so further up"""
    T, b, z, w, g = v.real('T', pos=True), v.real('b', pos=True), v.real('z', pos=True), v.real('w', pos=True), v.real('g', pos=True)
    v.assume(z <= w, G(z, b, T) >= G(z + g, b, T))
    L, R = sexp((b * b - w * w) / (2 * T) + (b * b - (z + g) * (z + g)) / (2 * T)), sexp((b * b - z * z) / (2 * T) + (b * b - (w + g) * (w + g)) / (2 * T))
    (ez, gz), (ew, gw), (ezg, gzg), (ewg, gwg) = Gx(v, z, b, T, 'z'), Gx(v, w, b, T, 'w'), Gx(v, z + g, b, T, 'zg'), Gx(v, w + g, b, T, 'wg')
    v.ensure('exponents', ((w + g) * (w + g) + z * z) / (2 * T) >= (w * w + (z + g) * (z + g)) / (2 * T))
    v.ensure('order of the exponentials', L >= R)
    v.ensure_eq('left product', L, ew * ezg)
    v.ensure_eq('right product', R, ez * ewg)
    v.ensure('order of the products', ew * ezg >= ez * ewg)
    v.step('products of G', [ew * ezg >= ez * ewg, ez > 0, ewg > 0, ew > 0, ezg > 0, z > 0, g > 0, z <= w, b > 0, eqv(gz * b, z * ez), eqv(gw * b, w * ew), eqv(gzg * b, (z + g) * ezg), eqv(gwg * b, (w + g) * ewg)],
           gw * gzg >= gz * gwg)
    v.ensure('given', gz >= gzg)
    v.step('falls further up', [gw * gzg >= gz * gwg, gz >= gzg, gzg * b > 0, b > 0, gwg * b > 0], gw >= gwg)
    v.ensure('G falls further up', G(w, b, T) >= G(w + g, b, T))


@unit('C09', functions=[BE])
def G_small_duration(v):
    """lemma: for T < 3u^2 the first two terms decrease"""
    T, u, b = lemma_vars(v)
    v.assume(T < 3 * u * u)
    (e1, g1), (e2, g2) = Gx(v, 2 * u - b, b, T, 'z'), Gx(v, 2 * u + b, b, T, 'w')
    y = v.define('y', b / (2 * u))
    v.ensure('half the ratio', conj([y > 0, y < 0.5, eqv(2 * u * y, b)]))
    w = v.define('root', core.ssqrt(1 - b / (2 * u)))
    v.ensure('root', conj([eqv(w * w, 1 - y), w > 0]))
    v.step('root is large', [eqv(w * w, 1 - y), w > 0, y > 0, y < 0.5], [5 * w * (1 + w) >= 6, w < 1])
    x = b / (2 * u)
    p, q, r = v.define('p', sexp(x)), v.define('q', sexp(5 * x / 6)), v.define('r', sexp(4 * u * b / T))
    v.ensure('tangents', conj([p >= 1 + y, q >= 1 + 5 * y / 6]))
    v.step('inverse root', [eqv(w * w, 1 - y), 5 * w * (1 + w) >= 6, w < 1, w > 0, q >= 1 + 5 * y / 6], q * w >= 1)
    v.step('inverse', [q * w >= 1, eqv(w * w, 1 - y), w > 0, q > 0], q * q * (1 - y) >= 1)
    v.step('exponent', [T < 3 * u * u, T > 0, b > 0, u > 0], 4 * u * b * 3 * u >= 4 * b * T)
    v.ensure('exponents', 4 * u * b / T >= 8 * x / 3)
    s = v.define('s', sexp(8 * x / 3))
    v.ensure('larger exponential', sexp(4 * u * b / T) >= sexp(8 * x / 3))
    v.ensure('r and s', r >= s)
    v.ensure_eq('product', s, p * q * q)
    v.step('lower bound', [r >= s, eqv(s, p * q * q), p >= 1 + y, q > 0, y > 0, y < 0.5, q * q * (1 - y) >= 1], r * (1 - y) >= 1 + y)
    v.step('times 2u', [r * (1 - y) >= 1 + y, eqv(2 * u * y, b), u > 0], r * (2 * u - b) >= 2 * u + b)
    v.ensure_eq('ratio of the exponentials', e1, e2 * r)
    v.step('decrease', [r * (2 * u - b) >= 2 * u + b, e2 > 0, eqv(e1, e2 * r), eqv(g1 * b, (2 * u - b) * e1), eqv(g2 * b, (2 * u + b) * e2), b > 0], g1 >= g2)
    v.ensure('G decreases', G(2 * u - b, b, T) >= G(2 * u + b, b, T))
