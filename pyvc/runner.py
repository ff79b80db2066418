"""Verification units: exploration of all paths of the real code under a contract."""
import builtins
import importlib
import inspect
import os
import sys
import time
import traceback
import z3
from fractions import Fraction
from . import core, npmodel as M, world, instrument as I, solver
from .core import Sym, Ctx, PathDone, Infeasible, Unsupported, GenericFork, Schema, Obligation, compare, lift, is_num, INF
from .npmodel import Arr, SymList, norm_dim, dim_is_int, ie

UNITS = []


class Unit:
    def __init__(self, prop, name, fn, functions, modes, maxlen, note, slow, budget, kind):
        self.prop, self.name, self.fn, self.functions, self.modes = prop, name, fn, functions, modes
        self.maxlen, self.note, self.slow, self.budget, self.kind = maxlen, note, slow, budget, kind

    @property
    def id(self): return '%s/%s' % (self.prop, self.name)


def unit(prop, name=None, functions=(), modes=('unbounded', 'bounded'), maxlen=3, note='', slow=10.0, budget=240, kind='contract'):
    """Registers fn(v) as the contract of `functions` deciding (part of) property `prop`."""
    def deco(fn):
        props = [prop] if isinstance(prop, str) else list(prop)
        for p in props:
            UNITS.append(Unit(p, name or fn.__name__, fn, list(functions), modes, maxlen, note or (fn.__doc__ or '').strip(), slow, budget, kind))
        return fn
    return deco


class StopUnit(BaseException):
    pass


class Run:
    """All paths of one unit in one mode."""
    def __init__(self, unit, mode, tier='quick'):
        self.unit, self.mode, self.tier = unit, mode, tier
        self.obl = []                 # (name, status, backend, secs, path id)
        self.cache = {}
        self.assumed = set()
        self.truncated = False
        self.keep = []
        self.n_decisions = 0
        self.paths = 0
        self.prover = solver.Prover(slow=unit.slow * (1 if tier == 'quick' else 3))
        self.failures = []
        self.unsupported = None
        self.reached = 0
        self.called = set()
        self.contracts = set()
        self.t0 = time.time()

    def prove(self, c, name, goal, hints=(), slow=None, only=None):
        key = (tuple(ch for ch, _ in c.trace), c.obl_count)
        c.obl_count += 1
        if key in self.cache: return self.cache[key]
        if c.generic_stack:
            # an obligation inside an arbitrary element: its guards are hypotheses
            guards = [g for _, gs in c.generic_stack for g in gs]
            goal = z3.Implies(z3.And(*guards), goal) if guards else goal
        if time.time() - self.t0 > self.unit.budget * (1 if self.tier == 'quick' else 3):
            r = solver.Res('unknown', 'time budget of the unit exhausted')
        else:
            if only is not None: r = self.prover.prove(only, [], goal, hints=hints, slow=slow)
            else: r = self.prover.prove(c.facts, c.schemas, goal, hints=hints, slow=slow)
        ok = r.status == 'proved'
        self.obl.append((name, r.status, r.backend, r.secs))
        if not ok:
            self.failures.append(dict(obligation=name, status=r.status, goal=str(z3.simplify(goal))[:1500], backend=r.backend, model=r.detail,
                                      path=path_str(c), events=[str(e[0]) for e in c.events[-5:]]))
            if os.environ.get('PYVC_DEBUG'):
                print('   UNPROVED', self.unit.id, name, r.status, r.backend, str(z3.simplify(goal))[:700])
                if os.environ.get('PYVC_DEBUG') == '2':
                    for f in c.facts: print('      fact', str(f)[:300])
                    print('      model', r.detail[:1500])
            new = sum(not f['obligation'].startswith('[') for f in self.failures)
            if len(self.failures) >= 24 or new >= 6 or new >= 2 and time.time() - self.t0 > 60:
                self.cache[key] = ok
                raise StopUnit()
        self.cache[key] = ok
        return ok

    def go(self):
        work = [[]]
        limit = 4000
        try:
            while work:
                prefix = work.pop()
                self.paths += 1
                if self.paths > limit:
                    self.failures.append(dict(obligation='path exploration completes', status='unknown', goal='more than %d paths' % limit, backend='', model='', path=''))
                    self.obl.append(('path exploration completes', 'unknown', '', 0.0))
                    break
                if time.time() - self.t0 > 1.5 * self.unit.budget * (1 if self.tier == 'quick' else 3):
                    self.failures.append(dict(obligation='path exploration completes', status='unknown', goal='time budget', backend='', model='', path=''))
                    self.obl.append(('path exploration completes', 'unknown', '', 0.0))
                    break
                c = Ctx(prefix, self)
                c.obl_count = 0
                c.unroll = 12
                c.bounded = self.mode == 'bounded'
                core.CTX = c
                v = V(c, self)
                try:
                    try:
                        self.unit.fn(v)
                        self.reached += 1
                    except PathDone:
                        self.reached += 1
                    except Infeasible:
                        pass
                    except Unsupported as e:
                        # a contradictory path may stop anywhere
                        if c.solver.check() == z3.unsat: pass
                        else:
                            if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
                            self.unsupported = '%s [%s]' % (e, where())
                            return self
                    except (StopUnit, KeyboardInterrupt):
                        raise
                    except Exception as e:
                        # an exception escapes: the path must be infeasible
                        w = '%s: %s at %s' % (type(e).__name__, str(e)[:120], where())
                        if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
                        c.generic_stack.clear()
                        c.oblige('no unexpected %s' % w, z3.BoolVal(False))
                finally:
                    v.close()
                    core.CTX = None
                for i in range(len(prefix), len(c.trace)):
                    base = [ch for ch, _ in c.trace[:i]]
                    for alt in c.trace[i][1]: work.append(base + [alt])
        except StopUnit:
            core.CTX = None
        return self

    def summary(self):
        per = {}
        for n, st, bk, s in self.obl:
            p = per.setdefault(n, dict(n=0, proved=0, secs=0.0, backends=set()))
            p['n'] += 1
            p['proved'] += st == 'proved'
            p['secs'] += s
            if st == 'proved': p['backends'].add(bk)
        return dict(unit=self.unit.id, mode=self.mode, functions=self.unit.functions, paths=self.paths, completed=self.reached, obligations=len(self.obl),
                    discharged=sum(st == 'proved' for _, st, _, _ in self.obl), failures=self.failures, unsupported=self.unsupported, truncated=self.truncated,
                    assumed=sorted(self.assumed), contracts=sorted(self.contracts), secs=round(time.time() - self.t0, 2), solver_secs=round(sum(s for _, _, _, s in self.obl), 2),
                    named={n: dict(n=p['n'], proved=p['proved'], secs=round(p['secs'], 2), backends=sorted(p['backends'])) for n, p in per.items()}, note=self.unit.note)


def where():
    tb = sys.exc_info()[2]
    r = ''
    while tb:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(I.REPO + '/'): r = '%s:%d' % (os.path.relpath(f, I.REPO), tb.tb_lineno)
        tb = tb.tb_next
    return r


def path_str(c):
    return ','.join(str(ch) for ch, _ in c.trace)[:300]


class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc


class V:
    """What a contract can say."""
    def __init__(self, c, run):
        self.c, self.run = c, run
        self.patches = []
        self.defs = []
        self.bounded = run.mode == 'bounded'
        self.maxlen = run.unit.maxlen
        self.and_ = lambda *a: conj(a)
        self.or_ = lambda *a: disj(a)

    # -- inputs
    def real(self, name='x', pos=False, nonneg=False):
        s = Sym(z3.Real(self.c.name(name)))
        if pos: self.c.assume(s > 0)
        if nonneg: self.c.assume(s >= 0)
        return s

    def int(self, name='n', lo=None, hi=None):
        s = Sym(z3.Int(self.c.name(name)))
        if lo is not None: self.c.assume(s >= lo)
        if hi is not None: self.c.assume(s < hi)
        return s

    c_half = Fraction(1, 2)

    def is_nan(self, x):
        x = scal(x)
        if isinstance(x, Sym): return Sym(x.bad) if x.bad is not None else False
        return x != x

    def bool(self, name='b'): return Sym(z3.Bool(self.c.name(name)))

    def choose(self, *vals):
        return vals[self.c.choose(len(vals))]

    def dim(self, name='n', lo=0, maxlen=None):
        """A length: an arbitrary integer >= lo (unbounded mode) or lo..maxlen (bounded mode)."""
        if self.bounded:
            mx = max(self.maxlen if maxlen is None else maxlen, lo)
            return self.choose(*range(lo, mx + 1))
        s = Sym(z3.Int(self.c.name(name)))
        self.c.assume(s >= lo)
        return s

    def small(self, name, lo, hi):
        """A length explored by cases lo..hi in every mode (part of the stated bound)."""
        return self.choose(*range(lo, hi + 1))

    def vec(self, name, n, elem=None, sort='f'):
        """An arbitrary vector of length n; elem(i, x) yields facts about each entry."""
        return self.array(name, (n,), None if elem is None else (lambda ix, x: elem(ix[0], x)), sort)

    def array(self, name, shape, elem=None, sort='f'):
        srt = {'f': core.R, 'i': core.I, 'b': core.B}[sort]
        nm = self.c.name(name)
        F = z3.Function(nm, *([core.I] * len(shape) + [srt]))
        a = Arr(tuple(shape), lambda ix: Sym(F(*[ie(i) for i in ix])), sort)
        if elem is not None: self.each(a, elem, {nm})
        return a

    def each(self, a, elem, trig=None):
        shape = a._shape
        if all(dim_is_int(d) for d in shape):
            import itertools
            for ix in itertools.product(*[range(d) for d in shape]):
                for f in aslist(elem(ix, a.get(ix))): self.c.assume(f)
        else:
            g = a.snap()

            def body(*idx):
                fs = aslist(elem(tuple(Sym(i) for i in idx), g(tuple(Sym(i) for i in idx))))
                return z3.Implies(z3.And(*[z3.And(i >= 0, i < ie(d)) for i, d in zip(idx, shape)]), z3.And(*[truth(f) for f in fs]))
            self.c.schema(len(shape), body, trig, 'input')

    def known_all(self, n, fn, trig=None, name='fact'):
        """Assume fn(i) for all 0 <= i < n."""
        if dim_is_int(n):
            for i in range(n):
                for f in aslist(fn(i)): self.c.assume(f)
        else:
            self.c.schema(1, lambda k: z3.Implies(z3.And(k >= 0, k < ie(n)), z3.And(*[truth(f) for f in aslist(fn(Sym(k)))])), trig, name)

    def known_pairs(self, n, fn, trig=None, name='fact'):
        """Assume fn(i, j) for all 0 <= i < j < n."""
        if dim_is_int(n):
            for i in range(n):
                for j in range(i + 1, n):
                    for f in aslist(fn(i, j)): self.c.assume(f)
        else:
            self.c.schema(2, lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < ie(n)), z3.And(*[truth(f) for f in aslist(fn(Sym(i), Sym(j)))])), trig, name)

    def sorted(self, name, n, lo=None, hi=None, strict=True, lo_strict=True, hi_strict=True):
        """A vector in increasing order (strictly by default), inside the given range."""
        a = self.vec(name, n)
        g = a.get
        nm = name_of(a)
        op = '<' if strict else '<='
        if dim_is_int(n):
            for i in range(n - 1): self.c.assume(compare(op, a.get((i,)), a.get((i + 1,))))
            for i in range(n):
                if lo is not None: self.c.assume(compare('>' if lo_strict else '>=', a.get((i,)), lo))
                if hi is not None: self.c.assume(compare('<' if hi_strict else '<=', a.get((i,)), hi))
        else:
            self.known_pairs(n, lambda i, j: compare(op, a.get((i,)), a.get((j,))), {nm}, 'order of ' + name)
            fs = []
            if lo is not None: fs.append(lambda x: compare('>' if lo_strict else '>=', x, lo))
            if hi is not None: fs.append(lambda x: compare('<' if hi_strict else '<=', x, hi))
            if fs: self.known_all(n, lambda i: [f(a.get((i,))) for f in fs], {nm}, 'range of ' + name)
        return a

    def func(self, name, arity=1):
        """An arbitrary real function (uninterpreted), working elementwise on arrays."""
        F = z3.Function(self.c.name(name), *([core.R] * arity + [core.R]))
        ap = lambda *a: Sym(F(*[core.to_real(lift(x)) for x in a]), core.or_bad(*[core.bad_of(x) for x in a]))
        def f(*a):
            if any(isinstance(x, (Arr, SymList, list)) for x in a): return M.ewn(ap, tuple(M.asarr(x) if isinstance(x, (SymList, list)) else x for x in a))
            return ap(*a)
        f.F = F
        return f

    def gen(self, label='ome'): return world.Gen(label)

    def freeze(self, a, label):
        """Frame condition: the array must not be modified."""
        a.frozen = label
        return a

    # -- logic
    def assume(self, *fs):
        for f in fs:
            for x in aslist(f): self.c.assume(x)

    def ensure(self, name, goal, **kw):
        if isinstance(goal, (list, tuple)):
            r = True
            for i, g in enumerate(goal): r = self.c.oblige(name if len(goal) == 1 else '%s[%d]' % (name, i), g, **kw) and r
            return r
        if isinstance(goal, Arr): goal = goal.item()
        if isinstance(goal, z3.BoolRef): goal = Sym(goal)
        return self.c.oblige(name, goal, **kw)

    def hint(self, goal, slow=2.0):
        """Try to derive a helpful fact; it is used only when it is proved, and nothing fails when it is not."""
        c = self.c
        g = truth(goal)
        key = ('hint', tuple(ch for ch, _ in c.trace), c.obl_count, g.get_id())
        if key not in self.run.cache:
            self.run.cache[key] = self.run.prover.prove(c.facts, c.schemas, g, slow=0).status == 'proved' or self.run.prover.prove(c.facts, c.schemas, self.expand(g), slow=slow).status == 'proved'
            self.run.keep.append(g)
        if self.run.cache[key]: c._fact(g)
        return self.run.cache[key]

    def ensure_eq(self, name, a, b, **kw):
        """Equality of scalars (numbers, None, infinities), both being defined."""
        a, b = M.numify(scal(a)), M.numify(scal(b))
        if a is None or b is None: return self.c.oblige(name, a is b)
        if is_num(a) and is_num(b): return self.c.oblige(name, z3.BoolVal(num_eq(a, b)))
        return self.c.oblige(name, compare('==', a, b), **kw)

    def index(self, n, name='i'):
        """An arbitrary index below n: what is ensured at it holds at all of them."""
        if dim_is_int(n):
            if n == 0: raise PathDone()
            return self.c.choose(n)
        k = self.c.int(name)
        self.c.assume(Sym(z3.And(k.e >= 0, k.e < ie(n))))
        return k

    def forall(self, name, n, fn, **kw):
        """Ensure fn(i) for every 0 <= i < n (fn returns one or several conditions)."""
        if dim_is_int(n):
            for i in range(n):
                for g in aslist(fn(i)): self.c.oblige(name, g, **kw)
            return
        c = self.c
        k = Sym(z3.Int(c.name('all_i')))
        hyp = z3.And(k.e >= 0, k.e < ie(n))
        nf = len(c.facts)
        # local hypothesis: pushed for the goals only
        c.solver.push()
        c.facts.append(hyp); c.solver.add(hyp)
        saved_known = dict(c.known)
        saved_ground = dict(c.grounded)
        try:
            gs = aslist(fn(k))
            for g in gs: c.oblige(name, g, **kw)
        finally:
            del c.facts[nf:]
            c.solver.pop()
            c.known = saved_known
            c.grounded = saved_ground

    def step(self, name, using, goal, terms=(), **kw):
        """Ensure the conditions `using`, then the goal from these alone, the given terms being generalised
        to arbitrary reals (which is sound, and keeps the reasoning small)."""
        us = []
        for i, u in enumerate(aslist(using)):
            e = truth(u)
            if z3.is_true(e): continue
            if not any(e.eq(f) for f in self.c.facts): self.c.oblige('%s: premise %d' % (name, i), Sym(e))
            us.append(e)
        g = truth(goal if not isinstance(goal, (list, tuple)) else conj(goal))
        ts = [t for t in terms if isinstance(t, Sym)]
        sub = [(t.e, z3.Const('gen_%s_%d' % (name.replace(' ', '_'), i), t.e.sort())) for i, t in enumerate(ts)]
        sub.sort(key=lambda p: -len(p[0].sexpr()))
        for p in sub:
            us = [z3.substitute(u, p) for u in us]
            g2 = z3.substitute(g, p)
            g = g2
        ok = self.run.prove(self.c, name, g, only=us, **kw)
        if ok: self.c._fact(truth(goal if not isinstance(goal, (list, tuple)) else conj(goal)))
        return ok

    def define(self, name, x):
        """A fresh name for a value."""
        if not isinstance(x, Sym): return x
        s = Sym(z3.Real(self.c.name(name)))
        if x.bad is not None: self.c.oblige(name + ' is defined', Sym(z3.Not(x.bad)))
        self.c._fact(s.e == core.to_real(x.e))
        self.defs.append((s.e, self.expand(core.to_real(x.e))))
        return s

    def expand(self, e):
        """Replace the names introduced by define by what they stand for."""
        return z3.substitute(e, *self.defs) if self.defs else e

    def forall_pairs(self, name, n, fn, **kw):
        """Ensure fn(i, j) for all 0 <= i < j < n."""
        if dim_is_int(n):
            for i in range(n):
                for j in range(i + 1, n):
                    for g in aslist(fn(i, j)): self.c.oblige(name, g, **kw)
            return
        c = self.c
        i, j = Sym(z3.Int(c.name('all_i'))), Sym(z3.Int(c.name('all_j')))
        self.local([z3.And(i.e >= 0, i.e < j.e, j.e < ie(n))], lambda: [c.oblige(name, g, **kw) for g in aslist(fn(i, j))])

    def local(self, hyps, body):
        """Run body (which states obligations) under extra hypotheses that are dropped afterwards."""
        c = self.c
        nf, ns = len(c.facts), len(c.schemas)
        c.solver.push()
        saved_known, saved_ground = dict(c.known), dict(c.grounded)
        for h in hyps:
            h = truth(h)
            c.facts.append(h); c.solver.add(h)
        try:
            return body()
        finally:
            del c.facts[nf:]
            del c.schemas[ns:]
            c.solver.pop()
            c.known, c.grounded = saved_known, saved_ground

    def contradiction(self, name, assume):
        """Ensure that the assumptions made by assume() contradict what is known (a proof by contradiction)."""
        self.local([], lambda: (assume(), self.c.oblige(name, z3.BoolVal(False)))[1])

    def forall_assume(self, *a, **k): return self.known_all(*a, **k)

    def ensure_len(self, name, a, n):
        m = I.h_len(a)
        if dim_is_int(m) and dim_is_int(n): return self.c.oblige(name, z3.BoolVal(m == n))
        return self.c.oblige(name, compare('==', m, n))

    def ensure_arr(self, name, a, b, **kw):
        """Elementwise equality of two arrays."""
        a, b = M.asarr(a), M.asarr(b)
        ok = a.ndim == b.ndim
        self.c.oblige(name + ': same number of axes', z3.BoolVal(ok))
        if not ok: return
        for p, q in zip(a._shape, b._shape):
            if not (dim_is_int(p) and dim_is_int(q) and p == q): self.c.oblige(name + ': same shape', compare('==', p, q) if not (dim_is_int(p) and dim_is_int(q)) else z3.BoolVal(False))
        if a.ndim == 0: return self.ensure_eq(name, a.item_(), b.item_(), **kw)
        if a.ndim == 1: return self.forall(name, a._shape[0], lambda i: eqv(a.get((i,)), b.get((i,))), **kw)
        if a.ndim == 2: 
            if dim_is_int(a._shape[0]):
                for i in range(a._shape[0]): self.forall(name, a._shape[1], lambda j: eqv(a.get((i, j)), b.get((i, j))), **kw)
                return
            i = self.index(a._shape[0])
            return self.forall(name, a._shape[1], lambda j: eqv(a.get((i, j)), b.get((i, j))), **kw)
        raise Unsupported('array equality')

    def cases(self, cond):
        """Fork on a condition."""
        if isinstance(cond, Sym): return bool(cond)
        return bool(cond)

    def entails(self, cond):
        if isinstance(cond, Sym): return self.c.entails(cond.e)
        return bool(cond)

    # -- code
    def load(self, name):
        return I.load(name)

    def fn(self, ref):
        mod, q = ref.split(':')
        o = I.load(mod)
        for p in q.split('.'): o = getattr(o, p)
        return o

    def call(self, f, *a, **kw):
        if isinstance(f, str): f = self.fn(f)
        self.c.events.append(('call', getattr(f, '__name__', '?')))
        return f(*a, **kw)

    def catch(self, f, *a, **kw):
        """Call, returning an Outcome with .value or .exc."""
        if isinstance(f, str): f = self.fn(f)
        try:
            return Outcome(f(*a, **kw))
        except (Unsupported, PathDone, Infeasible): raise
        except Exception as e:
            return Outcome(None, e)

    def patch(self, target, repl):
        """Replace a function of the program (everywhere it is bound) by a stand-in."""
        obj = self.fn(target) if isinstance(target, str) else target
        n = 0
        I.load_all()        # a module loaded later would bind the stand-in for good
        for m in list(I.MODS.values()):
            for k, val in list(vars(m).items()):
                if val is obj:
                    self.patches.append((m, k, val)); setattr(m, k, repl); n += 1
        if isinstance(target, str) and '.' in target.split(':')[1]:
            mod, q = target.split(':')
            o = I.load(mod)
            for p in q.split('.')[:-1]: o = getattr(o, p)
            self.patches.append((o, q.split('.')[-1], obj)); setattr(o, q.split('.')[-1], repl); n += 1
        return n

    def contract(self, target, fn):
        """Replace a function by its contract: fn(**bound arguments) checks the precondition and returns
        a value about which only the postcondition is known.  A missing function is no error: whatever
        replaced it is then executed."""
        try:
            obj = self.fn(target)
        except (AttributeError, ModuleNotFoundError):
            return False
        sig = inspect.signature(obj)
        self.run.contracts.add(target)

        def stub(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            try: fsig.bind(**b.arguments)
            except TypeError:       # parameters were renamed: the contract takes them in order
                return fn(*b.arguments.values())
            return fn(**b.arguments)
        fsig = inspect.signature(fn)
        stub.__name__ = getattr(obj, '__name__', 'stub')
        stub.__wrapped_target__ = target
        self.patch(obj, stub)
        return True

    def close(self):
        for o, k, val in reversed(self.patches): setattr(o, k, val)
        self.patches = []

    def on_fallthrough(self, f):
        """f(loop, carried) at the end of an arbitrary loop iteration that goes on to the next one."""
        self.c.fall_hooks.append(f)

    def on_havoc(self, f):
        """f(name, entry value) -> unknown value of a loop-carried variable, or NotImplemented."""
        self.c.havoc_hooks.append(f)

    def invariant(self, roles, rel, name='loop invariant'):
        """Invariant of a loop: roles maps a role to match(entry value) -> bool (the loop-carried variable is found
        by the value it enters the loop with, not by its name) and a maker of an unknown value; rel(values, index)
        are the conditions, index being the number of iterations done."""
        st = {}

        def enter(loop, carried):
            found = {}
            for k, val in sorted(carried.items(), key=lambda kv: kv[0] in loop.mut):
                for r, (match, make) in roles.items():
                    if r not in found and match(val): found[r] = k; break
            if set(found) != set(roles): return
            st['loop'], st['names'] = loop, found
            self.ensure(name + ' on entry', rel({r: carried[k] for r, k in found.items()}, 0))
            st['vals'] = {r: roles[r][1]() for r in roles}
            self.assume(*aslist(rel(st['vals'], loop.index)))

        def havoc(nm, val):
            if st.get('loop') is self.c.loop:
                for r, k in st['names'].items():
                    if k == nm: return st['vals'][r]
            return NotImplemented

        def fell(loop, carried):
            if st.get('loop') is loop:
                self.ensure(name + ' is preserved', rel({r: carried[k] for r, k in st['names'].items()}, loop.index + 1 if loop.index is not None else None))
        self.c.loop_hooks = getattr(self.c, 'loop_hooks', []) + [enter]
        self.c.havoc_hooks.append(havoc)
        self.c.fall_hooks.append(fell)
        return st

    def source(self, item, fell=None, exit=None, havoc=None, may_be_empty=True):
        """An iterable of unknown length: a loop over it is verified for one arbitrary element."""
        return I.Source(item, fell, exit, havoc, may_be_empty)

    def drawn(self, kind=None):
        return [d for d in self.c.draws if kind is None or d.kind == kind]

    def assumption(self, text): self.run.assumed.add(text)

    def done(self): raise PathDone()


def aslist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def truth(f):
    if isinstance(f, Sym):
        e = f.e if f.is_bool() else f.e != 0
        return z3.And(z3.Not(f.bad), e) if f.bad is not None else e
    if isinstance(f, z3.ExprRef): return f
    return z3.BoolVal(bool(f))


def conj(fs): return Sym(z3.And(*[truth(f) for f in fs]))
def disj(fs): return Sym(z3.Or(*[truth(f) for f in fs]))
def implies(a, b): return Sym(z3.Implies(truth(a), truth(b)))
def iff(a, b): return Sym(truth(a) == truth(b))


def scal(a):
    if isinstance(a, Arr): return a.item()
    return a


def num_eq(a, b):
    if a != a or b != b: return a != a and b != b
    if core.is_finite_num(a) and core.is_finite_num(b): return core.frac(a) == core.frac(b)
    return a == b


def eqv(a, b):
    a, b = M.numify(scal(a)), M.numify(scal(b))
    if is_num(a) and is_num(b): return z3.BoolVal(num_eq(a, b))
    return compare('==', a, b)


def name_of(a):
    v = a.get(tuple(0 for _ in a._shape))
    return v.e.decl().name()


# ---------------------------------------------------------------- running a unit (fallback to the bounded mode)
def run_unit(u, tier='quick'):
    """The unbounded verification; where it is outside the subset, the bounded stand-in (labelled)."""
    results = []
    for mode in u.modes:
        r = Run(u, mode, tier).go()
        s = r.summary()
        results.append(s)
        if s['unsupported'] is None: break
    return results
