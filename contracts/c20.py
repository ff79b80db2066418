"""C20: the two-coin Bernoulli factory, one arbitrary round."""
from pyvc.runner import unit, eqv, conj, disj, implies
from pyvc import core
from ._spec import *

BF_ = 'ctbayes.misc.bfactories:'


class Coin:
    """flips with an arbitrary outcome and a state of its own"""
    def __init__(self, v, name, log): self.v, self.name, self.log, self.primed = v, name, log, False
    def __iter__(self): return self

    def flip(self, side):
        ok, st = self.v.bool(self.name), object()
        self.log.append((side, ok, st))
        return ok, st

    def __next__(self):
        if self.name == 'joint':
            if self.primed: return self.flip(None)
            self.primed = True
            return None
        return self.flip(self.name)

    def send(self, x): return self.flip(x)


def run(v, joint):
    w1, w2 = v.real('w1'), v.real('w2')
    q = v.real('pr_portkey', nonneg=True)
    v.assume(q <= 1)
    log, prop0, g = [], object(), v.gen()
    p1 = sexp(w1) / (sexp(w1) + sexp(w2))
    n = v.int('max_props', 1)

    def first(side):
        u = v.drawn('U')[0].value
        v.ensure('coin one is tried with probability w1/(w1+w2)', u <= p1 if side == 'one' else u >= p1)

    def fell(loop, carried):
        v.ensure('a round flips one coin', len(log) == 1)
        if len(log) != 1: return
        side, ok, st = log[0]
        first(side_name(side))
        v.ensure('the factory goes on only after tails', ok == False)
        v.ensure('the factory goes on only without escape', disj([len(v.drawn('U')) == 1 and q <= 0, len(v.drawn('U')) >= 2 and v.drawn('U')[-1].value >= q]))

    def side_name(s): return {'one': 'one', 'two': 'two', True: 'one', False: 'two'}.get(s) if not isinstance(s, core.Sym) else ('one' if v.cases(s) else 'two')
    v.on_fallthrough(fell)
    if joint:
        c = Coin(v, 'joint', log)
        o = v.catch(BF_ + 'sample_twocoin_joint', w1, w2, c, q, g, n)
    else:
        o = v.catch(BF_ + 'sample_twocoin', w1, w2, Coin(v, 'one', log), Coin(v, 'two', log), q, prop0, g, n)
    if o.exc is not None:
        v.ensure('exhaustion raises the budget error', type(o.exc).__name__ == 'BudgetConstraintError')
        v.ensure('only exhaustion raises', len(log) == 0)
        return
    a, b, prop = o.value
    v.ensure('a round flips one coin', len(log) == 1)
    if len(log) != 1: return
    side, ok, st = log[0]
    side = side_name(side)
    v.ensure('the generator is asked for a side', side is not None)
    first(side)
    if v.cases(ok):
        v.ensure('reports the coin that came up heads', conj([a == (side == 'one'), b == False]))
        v.ensure('returns the state of that flip', prop is st)
    else:
        u = v.drawn('U')
        v.ensure('tails end the factory only by escape', len(u) >= 2 and u[-1].value <= q)
        v.ensure('escape is reported as failure', conj([a == False, b == True]))
        v.ensure('escape falls back', prop is (st if joint else prop0))


@unit('C20', functions=[BF_ + 'sample_twocoin'])
def twocoin(v):
    """one arbitrary round of the algorithm and its exhaustion"""
    run(v, False)


@unit('C20', functions=[BF_ + 'sample_twocoin_joint'])
def twocoin_joint(v):
    """one arbitrary round of the version with a single generator, told which side to flip"""
    run(v, True)


@unit('C20', kind='lemma')
def winning_probability(v):
    """rounds of that form make the first coin win with probability w1 p1 / (w1 p1 + w2 p2)"""
    a, b = v.real('w1', pos=True), v.real('w2', pos=True)
    p, q = v.real('p1', nonneg=True), v.real('p2', nonneg=True)
    v.assume(p <= 1, q <= 1, a * p + b * q > 0)
    c = a / (a + b)
    W = v.real('W')                     # probability that coin one wins
    v.assume(eqv(W, c * p + (1 - c * p - (1 - c) * q) * W))
    v.step('first coin wins', [eqv(W, c * p + (1 - c * p - (1 - c) * q) * W), eqv(c * (a + b), a), a > 0, b > 0, a * p + b * q > 0], eqv(W * (a * p + b * q), a * p))
