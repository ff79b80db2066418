"""C22: adaptation recursion and schedule, regime proposals."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core, npmodel as M
from ._spec import *
from pyvc.instrument import h_len as ilen

CLS = {'scalar': 'MyopicRwSampler', 'vector': 'MyopicMvRwSampler', 'regime': 'MyopicMjpSampler'}


@unit('C22', functions=[AD + 'seq_update_normal'])
def welford(v):
    """with S1, S2 the sums of n observations and of their products, the update gives the mean and unbiased covariance of n+1"""
    d = v.dim('dimension', 1)
    n = v.int('n', 1)
    x, m, c = v.freeze(v.vec('obs', d), 'observation'), v.freeze(v.vec('mean', d), 'mean'), v.freeze(v.array('cov', (d, d)), 'covariance')
    S1 = lambda i: n * m.get((i,))
    S2 = lambda i, j: (n - 1) * c.get((i, j)) + n * m.get((i,)) * m.get((j,))
    a, b = v.call(AD + 'seq_update_normal', x, n, m, c)
    i, j = v.index(d, 'i'), v.index(d, 'j')
    v.ensure_len('one mean per coordinate', a, d); v.ensure_len('one row per coordinate', b, d)
    T1 = lambda i: S1(i) + x.get((i,))
    v.ensure_eq('mean of all observations', a.get((i,)), T1(i) / (n + 1))
    v.ensure_eq('unbiased covariance of all observations', b.get((i, j)), (S2(i, j) + x.get((i,)) * x.get((j,)) - T1(i) * T1(j) / (n + 1)) / n)


def sampler(v, kind):
    """a sampler after any number of steps"""
    cls = v.fn(AD + CLS[kind])
    air = v.small('air', 1, 2)
    opt, decay = v.real('opt_prob'), v.real('decay', pos=True)
    if kind == 'vector':
        d = v.dim('dimension', 1)
        S = cls(v.vec('init', d), (M.full((d,), -INF), M.full((d,), INF)), opt, decay, air)
        S.adapt_mean, S.adapt_cov, S.prop_cov = v.vec('adapt_mean', d), v.array('adapt_cov', (d, d)), v.array('prop_cov', (d, d))
    elif kind == 'scalar':
        d = None
        S = cls(v.real('init'), (-INF, INF), opt, decay, air)
    else:
        d = None
        S = cls(object(), opt, decay, air)
    v.ensure('schedule starts with one period', conj([len(S.emp_prob) == 1, len(S.adapt_periods) == 2, len(S.log_prop_scale) == 1, S.adapt_periods[-1] == 1, S.adapt_periods[-2] == 0]))
    ne, m, k = v.dim('steps', 1), v.dim('periods', 2), v.dim('scales', 1)
    S.emp_prob = M.SymList.of_arr(v.vec('emp_prob', ne))
    S.adapt_periods = M.SymList.of_arr(v.vec('adapt_periods', m, lambda i, x: x >= 0, sort='i'))
    S.log_prop_scale = M.SymList.of_arr(v.vec('log_prop_scale', k))
    a, b = S.adapt_periods[-2], S.adapt_periods[-1]
    v.assume(a < b, a < ne, ne <= b)
    return S, d, air, opt, decay, ne, m, k, a, b


def mk(kind):
    @unit('C22', name='adapt_' + kind, functions=[AD + CLS[kind] + '.adapt', AD + CLS[kind] + '.__init__'] + ([AD + 'seq_update_normal'] if kind == 'vector' else []), maxlen=3)
    def go(v):
        """one step of adaptation after any history"""
        S, d, air, opt, decay, ne, m, k, a, b = sampler(v, kind)
        last = S.log_prop_scale[-1]
        old_scale, old_probs, old_per = S.log_prop_scale, S.emp_prob, S.adapt_periods
        snap = [(o, M.asarr(o).copy()) for o in (old_scale, old_probs, old_per)]
        prob = v.real('prob')
        x = v.vec('sample', d) if kind == 'vector' else v.real('sample') if kind == 'scalar' else object()
        if kind == 'vector': mean0, cov0, prop0 = S.adapt_mean.copy(), S.adapt_cov.copy(), S.prop_cov
        g = lambda A, i: M.asarr(A).get((i,))
        v.call(AD + CLS[kind] + '.adapt', S, x, prob)
        v.ensure('stores the new state', S.state is x)
        v.ensure_len('one success rate more', S.emp_prob, ne + 1)
        v.ensure_eq('stores the success rate', S.emp_prob[-1], prob)
        i = v.index(ne, 'kept')
        v.ensure_eq('keeps earlier success rates', g(S.emp_prob, i), g(snap[1][1], i))
        due = v.cases(ne + 1 == b + 1)
        if kind == 'vector':
            p, q = v.index(d, 'p'), v.index(d, 'q')
            n_ = 1 + ne
            dev = lambda p: x.get((p,)) - mean0.get((p,))
            v.ensure_eq('running mean', S.adapt_mean.get((p,)), mean0.get((p,)) + dev(p) / (n_ + 1))
            v.ensure_eq('running covariance', S.adapt_cov.get((p, q)), cov0.get((p, q)) + (dev(p) * dev(q) * n_ / (n_ + 1) - cov0.get((p, q))) / n_)
            want = S.adapt_cov.get((p, q)) if due else prop0.get((p, q))
            v.ensure_eq('proposal covariance is refreshed only at a period end', S.prop_cov.get((p, q)), want)
        if not due:
            v.ensure('scale and schedule change only at a period end', conj([ilen(S.log_prop_scale) == k, ilen(S.adapt_periods) == m]))
            v.ensure_eq('scale is kept', S.log_prop_scale[-1], last)
        else:
            v.ensure_len('one scale more', S.log_prop_scale, k + 1)
            v.ensure_len('one period more', S.adapt_periods, m + 1)
            obs = prob if kind == 'regime' else M.np_sum(M.asarr(old_probs_tail(v, snap[1][1], a, ne, prob))) / (ne + 1 - a)
            rate = core.spow(M.numify(m), -decay)
            v.ensure_eq('scale moves by the learning rate times the gap', S.log_prop_scale[-1], last + rate * (obs - opt))
            v.ensure_eq('next period end', S.adapt_periods[-1], b + (m if air == 1 else m * m))
            v.ensure('periods grow', S.adapt_periods[-1] - b > 0)
            j = v.index(m, 'kept')
            v.ensure_eq('keeps earlier periods', g(S.adapt_periods, j), g(snap[2][1], j))
        v.ensure('the step count stays within the current period', conj([S.adapt_periods[-2] < ne + 1, ne + 1 <= S.adapt_periods[-1]]))


def old_probs_tail(v, old, a, ne, prob):
    """success rates from the start of the period on, the new one included"""
    L = M.SymList.of_arr(old)
    L.append(prob)
    return L[a:]


for _k in CLS: mk(_k)


@unit('C22', kind='lemma')
def learning_rates_decrease(v):
    """m ** -decay decreases in m"""
    m, d = v.real('m'), v.real('decay', pos=True)
    v.assume(m >= 2)
    v.ensure('learning rate decreases', core.spow(m + 1, -d) < core.spow(m, -d))
    v.ensure('learning rate is positive', core.spow(m, -d) > 0)


@unit('C22', functions=[AD + 'MyopicMjpSampler.propose'])
def regime_proposal(v):
    """cuts are a random subset of the interior times, and exactly those are reported"""
    S, *_ = sampler(v, 'regime')
    n = v.dim('times', 2)
    t = v.freeze(v.sorted('t', n), 'times')
    lam, g = v.freeze(v.array('lam', (2, 2)), 'generator'), v.gen()
    state, parts, new, out = S.state, object(), object(), object()
    cuts, calls = [], []

    def part(sk, t_cond=None, **k):
        v.ensure('cuts the current path', sk is state)
        calls.append('partition'); cuts.append(k.get('cond_t', t_cond)); return parts

    def mut(sk, lam_, ome):
        v.ensure('re-simulates the pieces with the given generator matrix and random generator', conj([sk is parts, ome is g]))
        i, j = v.choose(0, 1), v.choose(0, 1)
        v.ensure_eq('generator matrix', lam_.get((i, j)), lam.get((i, j)))
        calls.append('mutate'); return new

    def paste(sk):
        v.ensure('pastes the new pieces', sk is new)
        calls.append('paste'); return out
    import inspect
    def stub(target, f):
        names = list(inspect.signature(v.fn(target)).parameters)
        v.contract(target, lambda **kw: f(*[kw[x] for x in names]))
    stub(MJ + 'partition_skeleton', lambda sk, c: part(sk, c)); stub(MJ + 'mutate_partition', mut); stub(MJ + 'paste_partition', lambda sk: paste(sk))
    prop, rep = v.call(AD + 'MyopicMjpSampler.propose', S, lam, t, g)
    v.ensure('cut, re-simulate, paste', calls == ['partition', 'mutate', 'paste'])
    v.ensure('returns the pasted path', prop is out)
    v.ensure('keeps the state', S.state is state)
    if not cuts: return
    c = M.asarr(cuts[0])
    v.ensure_arr('reports exactly the cuts', rep, c)
    u = v.drawn('U')
    v.ensure('one uniform per interior time', len(u) == 1 and u[0].gen is g)
    U = u[0].value
    v.ensure_len('one uniform per interior time', U, n - 2)
    p = 1 / (1 + core.sexp(S.log_prop_scale[-1]))
    nc = c._shape[0]
    v.forall_pairs('cuts increase', nc, lambda i, j: c.get((i,)) < c.get((j,)))
    # each cut is a selected interior time, and each selected interior time is a cut
    k = v.index(nc, 'cut')
    def foreign():
        v.known_all(n - 2, lambda i: disj([c.get((k,)) != t.get((i + 1,)), U.get((i,)) > p]))
    v.contradiction('every cut is a selected interior time', foreign)


@unit('C22', functions=[AD + 'MyopicMjpSampler.propose'])
def regime_proposal_complete(v):
    """every interior time whose uniform falls below the cut probability is a cut"""
    S, *_ = sampler(v, 'regime')
    n = v.dim('times', 3)
    t, g = v.sorted('t', n), v.gen()
    cuts = []
    import inspect
    for f in ('partition_skeleton', 'mutate_partition', 'paste_partition'): v.contract(MJ + f, lambda **kw: object())
    _, rep = v.call(AD + 'MyopicMjpSampler.propose', S, v.array('lam', (2, 2)), t, g)
    c, U = M.asarr(rep), v.drawn('U')[0].value
    p = 1 / (1 + core.sexp(S.log_prop_scale[-1]))
    i = v.index(n - 2, 'interior')
    v.assume(U.get((i,)) < p)
    def missing(): v.known_all(c._shape[0], lambda k: c.get((k,)) != t.get((i + 1,)))
    v.contradiction('every selected interior time is a cut', missing)
