"""Discharging proof obligations: instantiation of index schemas, ground axioms for exp/log/sqrt, and a
portfolio of back ends (z3 in process; z3-new, z3 nlsat and cvc5 as separate processes with hard
time limits; the equational normal form of ring.py)."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from . import core, ring
from .core import EXP, LOG, SQRT, POW, LGAMMA, PI, concrete

STATS = {}
Z3NEW = 'z3-new'
CVC5 = 'cvc5'


class Res:
    def __init__(self, status, backend='', secs=0.0, detail='', model=None):
        self.status, self.backend, self.secs, self.detail, self.model = status, backend, secs, detail, model


# ---------------------------------------------------------------- term collection
def subterms(es, seen=None):
    seen = {} if seen is None else seen
    st = list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen[i] = x
        if z3.is_quantifier(x): continue
        st.extend(x.children())
    return seen


def is_ui(x): return z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


TRANS = {'exp', 'log', 'sqrt', 'pow', 'lgamma'}


def apps_by_name(terms):
    d = {}
    for x in terms.values():
        if is_ui(x): d.setdefault(x.decl().name(), []).append(x)
    return d


# ---------------------------------------------------------------- schema instantiation
class Pat:
    """How a schema's placeholders appear in its trigger applications."""
    def __init__(self, sch):
        self.sch = sch
        self.ph = [z3.Const('schema!%d' % i, z3.IntSort() if sch.sort == 'Int' else z3.RealSort()) for i in range(sch.arity)]
        saved = core.CTX
        self.body = sch.body(*self.ph)
        self.names = set()
        self.pats = []
        ids = {p.get_id(): i for i, p in enumerate(self.ph)}
        allt = subterms([self.body])
        for x in allt.values():
            if not is_ui(x): continue
            nm = x.decl().name()
            if sch.triggers is not None and nm not in sch.triggers: continue
            if sch.triggers is None and nm in TRANS: continue
            binds = []
            for a in x.children():
                b = lin(a, ids)
                binds.append(b)
            if any(b is not None and b[0] is not None for b in binds):
                self.pats.append((nm, binds))
                self.names.add(nm)
        if sch.triggers is not None:
            self.names |= set(sch.triggers)
        self.ground = [x for x in allt.values() if is_ui(x) and x.decl().name() not in TRANS and not mentions(x, ids)]

    def instantiate(self, args):
        return z3.substitute(self.body, *[(p, a) for p, a in zip(self.ph, args)])


def lin(a, ids, sign=1):
    """argument a as sign * placeholder + offset: (index, offset, sign); a term without placeholders: (None, a, 1);
    otherwise None."""
    if a.get_id() in ids: return (ids[a.get_id()], 0, 1)
    if z3.is_int(a) or z3.is_real(a):
        if z3.is_app_of(a, z3.Z3_OP_TO_REAL): return lin(a.arg(0), ids)
        ph, off, sg = None, 0, 1
        todo = [(a, 1)]
        while todo:
            c, s = todo.pop()
            if z3.is_add(c): todo += [(d, s) for d in c.children()]
            elif z3.is_sub(c): todo += [(d, s if i == 0 else -s) for i, d in enumerate(c.children())]
            elif z3.is_app_of(c, z3.Z3_OP_UMINUS): todo.append((c.arg(0), -s))
            elif z3.is_mul(c) and c.num_args() == 2 and concrete(c.arg(0)) == -1: todo.append((c.arg(1), -s))
            elif c.get_id() in ids:
                if ph is not None: return None
                ph, sg = ids[c.get_id()], s
            elif mentions(c, ids): return None
            else:
                n = concrete(c)
                off = off + s * (n if isinstance(n, int) else c)
        if ph is not None: return (ph, off, sg)
    return None if mentions(a, ids) else (None, a, 1)


def mentions(e, ids):
    st, seen = [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        st.extend(x.children())
    return False


PATS = {}


def pat_of(s):
    p = getattr(s, '_pat', None)
    if p is None:
        p = Pat(s)
        s._pat = p
    return p


def instantiate(schemas, ground, rounds=3, cap=500, log=None):
    """Ground instances of the schemas over the index terms occurring in `ground`."""
    out = []
    done = set()
    seen = {}
    new_terms = subterms(ground, seen)
    pats = [pat_of(s) for s in schemas]
    if all(z3.is_false(z3.simplify(z3.Not(g))) for g in ground[-1:]) or len(seen) < 3:
        for p in pats: subterms(p.ground, seen)   # proofs by contradiction: the terms are in the schemas
    whole = [s for s in schemas]
    for rnd in range(rounds):
        byname = apps_by_name(seen)
        fresh = []
        for si, p in enumerate(pats):
            sch = p.sch
            k = sch.arity
            inv = str(sch.name).split('/', 1)[1] if str(sch.name).startswith('perm') and '/' in str(sch.name) else None
            cands = [dict() for _ in range(k)]
            full = {}
            for nm, binds in p.pats:
                for app in byname.get(nm, ()):
                    if app.num_args() != len(binds): continue
                    asg = {}
                    ok = True
                    for b, a in zip(binds, app.children()):
                        if b is None: continue
                        i, off, sg = b
                        if i is None: continue
                        if z3.is_app_of(a, z3.Z3_OP_TO_REAL) and sch.sort == 'Int': a = a.arg(0)
                        if sch.sort == 'Int' and not z3.is_int(a): ok = False; break
                        if sch.sort != 'Int' and z3.is_int(a): a = z3.ToReal(a)
                        t = z3.simplify(a) if isinstance(off, int) and off == 0 and sg == 1 else z3.simplify(a - off if sg == 1 else off - a)
                        if i in asg and not asg[i].eq(t): ok = False; break
                        asg[i] = t
                    if not ok: continue
                    if len(asg) == k:
                        tup = tuple(asg[i] for i in range(k))
                        full[tuple(t.get_id() for t in tup)] = tup
                    for i, t in asg.items(): cands[i][t.get_id()] = t
            pn = {nm for nm, _ in p.pats}
            if sch.triggers is not None and any(nm not in pn for nm in sch.triggers):
                # triggers only by name: their integer arguments are candidates
                for nm in sch.triggers:
                    if nm in pn: continue
                    for app in byname.get(nm, ()):
                        for a in app.children():
                            if z3.is_int(a):
                                t = z3.simplify(a)
                                for i in range(k): cands[i][t.get_id()] = t
                                if k == 1: full[(t.get_id(),)] = (t,)
            tuples = list(full.values())
            if not full or getattr(sch, 'cross', False) or k > 1:
                if all(cands):
                    n = 1
                    for c_ in cands: n *= len(c_)
                    if n <= 400:
                        tuples += list(itertools.product(*[list(c_.values()) for c_ in cands]))
            for tup in tuples:
                key = (si,) + tuple(t.get_id() for t in tup)
                if key in done: continue
                done.add(key)
                if inv is not None and any(z3.is_app(t) and t.num_args() == 1 and t.decl().name() == inv for t in tup): continue
                e = z3.simplify(p.instantiate(tup))
                if z3.is_true(e): continue
                fresh.append(e)
                if len(out) + len(fresh) >= cap: break
            if len(out) + len(fresh) >= cap: break
        out += fresh
        if not fresh or len(out) >= cap: break
        before = len(seen)
        subterms(fresh, seen)
    # inverse permutations: F(G(t)) is t (under the guard of the instance that says so)
    rules = []
    for e in out:
        if z3.is_implies(e): parts, guard = (list(e.arg(1).children()) if z3.is_and(e.arg(1)) else [e.arg(1)]), e.arg(0)
        elif z3.is_or(e):
            ch = list(e.children()); last = [c for c in ch if z3.is_and(c)]
            if len(last) != 1: continue
            parts, guard = list(last[0].children()), z3.Not(z3.Or(*[c for c in ch if c is not last[0]]))
        else: continue
        for q in parts:
            if z3.is_eq(q):
                for l, r in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                    if z3.is_app(l) and l.num_args() == 1 and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and l.decl().name().startswith('perm') and z3.is_app(l.arg(0)) and l.arg(0).num_args() == 1 \
                            and l.arg(0).decl().name().startswith('perm') and l.arg(0).arg(0).eq(r):
                        rules.append((l, r, guard))
    for l, r, guard in rules[:20]:
        lid = {l.get_id(): 0}
        for e in list(out):
            if mentions(e, lid):
                out.append(z3.Implies(guard, z3.simplify(z3.substitute(e, (l, r)))))
    return out


# ---------------------------------------------------------------- transcendental axioms
def trans_axioms(es, max_pairs=60):
    terms = subterms(es)
    by = apps_by_name(terms)
    out = []
    add = out.append
    # pow -> exp(b log a)
    for t in by.get('pow', ()):
        a, b = t.children()
        add(z3.Implies(a > 0, t == EXP(b * LOG(a))))
        add(z3.Implies(a > 0, t > 0))
        add(z3.Implies(z3.And(a == 0, b > 0), t == 0))
    if by.get('pow'):
        terms = subterms(out, terms); by = apps_by_name(terms)
    if by.get('log'):
        out += exponentiated(terms)
        terms = subterms(out, terms); by = apps_by_name(terms)
    exps, logs, sqs = by.get('exp', []), by.get('log', []), by.get('sqrt', [])
    for t in logs:
        x = t.arg(0)
        add(z3.Implies(x > 0, EXP(t) == x))
        add(z3.Implies(x > 0, t <= x - 1))
        add(z3.Implies(x > 0, x * t >= x - 1))
    for t in exps:
        x = t.arg(0)
        add(t > 0)
        add(t >= 1 + x)
        add(z3.Implies(x == 0, t == 1))
        add(z3.Implies(x < 0, t < 1))
        add(z3.Implies(x > 0, t > 1))
        add(z3.Implies(x < 1, t * (1 - x) <= 1))
        if not (is_ui(x) and x.decl().eq(LOG)): add(LOG(t) == x)
    # pairs
    args = {}
    for t in exps: args[t.arg(0).get_id()] = t
    for t in logs: args.setdefault(t.get_id(), EXP(t))
    el = list(args.values())
    np_ = 0
    for a, b in itertools.combinations(el, 2):
        np_ += 1
        if np_ > max_pairs: break
        x, y = a.arg(0), b.arg(0)
        add(z3.And((x < y) == (a < b), (x == y) == (a == b)))
        s = z3.simplify(x + y)
        c = concrete(s)
        if c is not None and c == 0: add(a * b == 1)
        elif s.get_id() in args: add(a * b == args[s.get_id()])
    np_ = 0
    for a, b in itertools.combinations(logs, 2):
        np_ += 1
        if np_ > max_pairs: break
        x, y = a.arg(0), b.arg(0)
        add(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
    for t in logs:
        x = t.arg(0)
        add(z3.Implies(x == 1, t == 0))
        add(z3.Implies(z3.And(x > 0, x < 1), t < 0))
        add(z3.Implies(x > 1, t > 0))
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_MUL:
            fs = x.children()
            if len(fs) <= 4 and not any(is_neg_num(f) for f in fs):
                add(z3.Implies(z3.And(*[f > 0 for f in fs]), t == z3.Sum(*[LOG(f) for f in fs])))
        if k == z3.Z3_OP_DIV:
            a, b = x.children()
            add(z3.Implies(z3.And(a > 0, b > 0), t == LOG(a) - LOG(b)))
        if is_ui(x) and x.decl().eq(SQRT):
            add(z3.Implies(x.arg(0) > 0, 2 * t == LOG(x.arg(0))))
    for t in sqs:
        x = t.arg(0)
        add(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
        add(z3.Implies(x > 0, t > 0))
    np_ = 0
    for a, b in itertools.combinations(sqs, 2):
        np_ += 1
        if np_ > max_pairs: break
        x, y = a.arg(0), b.arg(0)
        add(z3.Implies(z3.And(x >= 0, y >= 0), z3.And((x < y) == (a < b), (x == y) == (a == b))))
    if PI.get_id() in terms: add(z3.And(PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416')))
    return out


def lincomb(e, k, acc):
    """accumulates e as a linear combination {term id: (term, coefficient)} plus a constant; False if it is not one"""
    c = concrete(e)
    if c is not None:
        acc[None] = acc.get(None, 0) + k * c
        return True
    if z3.is_add(e): return all(lincomb(x, k, acc) for x in e.children())
    if z3.is_sub(e):
        ch = e.children()
        return lincomb(ch[0], k, acc) and all(lincomb(x, -k, acc) for x in ch[1:])
    if z3.is_app_of(e, z3.Z3_OP_UMINUS): return lincomb(e.arg(0), -k, acc)
    if z3.is_mul(e):
        cs = [x for x in e.children() if concrete(x) is not None]
        rest = [x for x in e.children() if concrete(x) is None]
        for x in cs: k = k * concrete(x)
        if len(rest) == 1: return lincomb(rest[0], k, acc)
        t = z3.Product(*rest)
        p = acc.get(t.get_id())
        acc[t.get_id()] = (t, (p[1] if p else 0) + k)
        return True
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL) or z3.is_int(e): pass
    p = acc.get(e.get_id())
    acc[e.get_id()] = (e, (p[1] if p else 0) + k)
    return True


def exponentiated(terms, cap=24):
    """For every comparison of linear combinations with logarithms: the equivalent comparison of products."""
    out = []
    for t in list(terms.values()):
        if len(out) >= cap: break
        kd = t.decl().kind() if z3.is_app(t) else None
        if kd not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): continue
        a, b = t.children()
        if not z3.is_real(a): continue
        acc = {}
        if not (lincomb(a, 1, acc) and lincomb(b, -1, acc)): continue
        const = acc.pop(None, 0)
        ts = [(x, k) for x, k in acc.values() if k != 0]
        logs = [(x, k) for x, k in ts if is_ui(x) and x.decl().eq(LOG)]
        if not logs or len(ts) > 6: continue
        if any(abs(k) > 2 or k.denominator != 1 for _, k in ts): continue
        L, R, pos = [], [], []
        for x, k in ts:
            f = x.arg(0) if is_ui(x) and x.decl().eq(LOG) else EXP(x if not z3.is_int(x) else z3.ToReal(x))
            if is_ui(x) and x.decl().eq(LOG): pos.append(f > 0)
            (L if k > 0 else R).extend([f] * int(abs(k)))
        if const != 0: L.append(EXP(z3.RealVal(str(const))))
        one = z3.RealVal(1)
        l, r = (z3.Product(*L) if len(L) > 1 else L[0] if L else one), (z3.Product(*R) if len(R) > 1 else R[0] if R else one)
        cmp_ = {z3.Z3_OP_LE: l <= r, z3.Z3_OP_GE: l >= r, z3.Z3_OP_LT: l < r, z3.Z3_OP_GT: l > r}[kd]
        out.append(z3.Implies(z3.And(*pos), t == cmp_))
    return out


def is_neg_num(f):
    c = concrete(f)
    return c is not None and c < 0


# ---------------------------------------------------------------- back ends
def has_int(e):
    for x in subterms([e]).values():
        if z3.is_int(x) and concrete(x) is None: return True
    return False


def z3_inproc(es, ms, rl=None):
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(*es)
    try:
        r = s.check()
    except z3.Z3Exception:
        return 'unknown', None
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', s.model()
    return 'unknown', None


def smt2(es, logic=None, check='(check-sat)', getmodel=False):
    s = z3.Solver()
    s.add(*es)
    t = s.to_smt2()
    t = t.replace('(check-sat)', check)
    return ('(set-logic %s)\n' % logic if logic else '') + t


def relax(es):
    """Uninterpreted applications, to_int and integer variables become real constants (with functional
    consistency for the applications).  Every model of the original is a model of the result."""
    memo, cons, apps = {}, [], {}
    n = [0]

    def var(e):
        n[0] += 1
        return z3.Real('ab!%d' % n[0])

    def isI(e): return z3.is_int(e)

    def go(e):
        k = e.get_id()
        r = memo.get(k)
        if r is not None: return r[0]
        r = _go(e)
        memo[k] = (r, e)
        return r

    def strict(a, b):  # a < b
        if isI(a) and isI(b): return go(a) + 1 <= go(b)
        return go(a) < go(b)

    def _go(e):
        if z3.is_quantifier(e): raise ValueError
        if z3.is_int_value(e): return z3.RealVal(e.as_long())
        if z3.is_rational_value(e) or z3.is_true(e) or z3.is_false(e): return e
        if z3.is_algebraic_value(e): raise ValueError
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                if z3.is_bool(e): return e
                if z3.is_int(e): return z3.Real('int!' + e.decl().name())
                return e
            args = [go(c) for c in ch]
            key = e.decl().name()
            v = z3.Bool('abb!%d' % (len(apps) * 1000 + len(apps.get(key, [])))) if z3.is_bool(e) else var(e)
            for a2, v2, e2 in apps.get(key, []):
                if len(a2) != len(args): continue
                if any(z3.is_false(z3.simplify(x == y)) for x, y in zip(args, a2)): continue
                cons.append(z3.Implies(z3.And(*[x == y for x, y in zip(args, a2)]), v == v2))
            apps.setdefault(key, []).append((args, v, e))
            return v
        if kd == z3.Z3_OP_TO_REAL: return go(ch[0])
        if kd == z3.Z3_OP_TO_INT:
            x = go(ch[0]); v = var(e)
            cons.append(z3.And(v <= x, x < v + 1))
            return v
        if kd in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_IS_INT):
            if z3.is_bool(e): raise ValueError
            return var(e)
        if kd == z3.Z3_OP_LT: return strict(ch[0], ch[1])
        if kd == z3.Z3_OP_GT: return strict(ch[1], ch[0])
        if kd == z3.Z3_OP_NOT:
            c = ch[0]
            if z3.is_app(c):
                ck = c.decl().kind(); cc = c.children()
                if ck == z3.Z3_OP_LE: return strict(cc[1], cc[0])
                if ck == z3.Z3_OP_GE: return strict(cc[0], cc[1])
                if ck == z3.Z3_OP_EQ and isI(cc[0]):
                    return z3.Or(strict(cc[0], cc[1]), strict(cc[1], cc[0]))
            return z3.Not(go(c))
        if kd == z3.Z3_OP_DISTINCT and len(ch) == 2 and isI(ch[0]):
            return z3.Or(strict(ch[0], ch[1]), strict(ch[1], ch[0]))
        args = [go(c) for c in ch]
        D = {z3.Z3_OP_ADD: lambda: z3.Sum(*args), z3.Z3_OP_MUL: lambda: z3.Product(*args), z3.Z3_OP_SUB: lambda: args[0] - z3.Sum(*args[1:]),
             z3.Z3_OP_UMINUS: lambda: -args[0], z3.Z3_OP_DIV: lambda: args[0] / args[1], z3.Z3_OP_LE: lambda: args[0] <= args[1], z3.Z3_OP_GE: lambda: args[0] >= args[1],
             z3.Z3_OP_EQ: lambda: args[0] == args[1], z3.Z3_OP_AND: lambda: z3.And(*args), z3.Z3_OP_OR: lambda: z3.Or(*args), z3.Z3_OP_IMPLIES: lambda: z3.Implies(*args),
             z3.Z3_OP_ITE: lambda: z3.If(*args), z3.Z3_OP_XOR: lambda: z3.Xor(*args), z3.Z3_OP_DISTINCT: lambda: z3.Distinct(*args), z3.Z3_OP_IFF: lambda: args[0] == args[1],
             z3.Z3_OP_POWER: lambda: args[0] ** args[1]}
        if kd in D: return D[kd]()
        raise ValueError('relax: %s' % e.decl())
    return [go(z3.simplify(e)) if False else go(e) for e in es] + cons


def run_cli(cmds, secs):
    """Run several solver command lines on files in parallel; first unsat (or sat) wins."""
    procs = []
    files = []
    try:
        for name, argv, text in cmds:
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False, dir=tmpdir())
            f.write(text); f.close(); files.append(f.name)
            p = subprocess.Popen(argv + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            procs.append((name, p))
        t0 = time.time()
        live = list(procs)
        ans = ('unknown', '')
        while live and time.time() - t0 < secs:
            for n_, p in list(live):
                if p.poll() is not None:
                    live.remove((n_, p))
                    o = p.stdout.read().strip().split('\n')[0]
                    if o == 'unsat': return ('unsat', n_)
                    if o == 'sat' and ans[0] != 'sat': ans = ('sat', n_)
            time.sleep(0.01)
        return ans
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        for f in files:
            try: os.unlink(f)
            except OSError: pass


_TMP = None


def tmpdir():
    global _TMP
    if _TMP is None or not os.path.isdir(_TMP):
        _TMP = tempfile.mkdtemp(prefix='pyvc')
        import atexit, shutil
        atexit.register(lambda d=_TMP, pid=os.getpid(): shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    return _TMP


# ---------------------------------------------------------------- the prover
class Prover:
    def __init__(self, fast=700, slow=10.0):
        self.fast, self.slow = fast, slow

    def prove(self, facts, schemas, goal, slow=None, rounds=3, depth=0, hints=()):
        t0 = time.time()
        r = self._prove(list(facts), list(schemas), goal, self.slow if slow is None else slow, rounds, depth, list(hints))
        r.secs = time.time() - t0
        return r

    def quick(self, facts, schemas, goal, ms=300):
        ng = z3.Not(goal)
        inst = instantiate(schemas, [ng], rounds=2, cap=80) if schemas else []
        return bool(inst) and z3_inproc(list(facts) + inst + [ng], ms)[0] == 'unsat'

    def _prove(self, facts, schemas, goal, slow, rounds, depth, hints):
        g = z3.simplify(goal)
        if z3.is_true(g): return Res('proved', 'simplifier')
        # structure of the goal
        if z3.is_and(goal):
            bks, model = set(), None
            for c in goal.children():
                r = self._prove(facts, schemas, c, slow, rounds, depth, hints)
                if r.status != 'proved': return r
                bks.add(r.backend)
            return Res('proved', '+'.join(sorted(bks)))
        if z3.is_implies(goal):
            return self._prove(facts + [goal.arg(0)], schemas, goal.arg(1), slow, rounds, depth, hints)
        if z3.is_app_of(goal, z3.Z3_OP_ITE):
            c, a, b = goal.children()
            return self._prove(facts, schemas, z3.And(z3.Implies(c, a), z3.Implies(z3.Not(c), b)), slow, rounds, depth, hints)
        if z3.is_not(goal) and z3.is_or(goal.arg(0)):
            return self._prove(facts, schemas, z3.And(*[z3.Not(x) for x in goal.arg(0).children()]), slow, rounds, depth, hints)
        if z3.is_false(g): g = z3.BoolVal(False)
        ng = z3.Not(goal)
        # 1. facts alone
        st, _ = z3_inproc(facts + [ng], self.fast)
        if st == 'unsat': return Res('proved', 'z3')
        # 2. equational normal form
        if ring.eq_parts(goal):
            r = self.by_ring(facts, schemas, goal, depth)
            if r: return r
        # 3. instances and axioms
        hint = [h for h in hints]
        if schemas:
            inst = instantiate(schemas, [ng] + hint, rounds=rounds, cap=150)
            if inst:
                st, _ = z3_inproc(facts + inst + hint + [ng], self.fast)
                if st == 'unsat': return Res('proved', 'z3+goal-instances')
        inst = instantiate(schemas, facts_relevant(facts, goal) + [ng] + hint, rounds=rounds) if schemas else []
        base = facts + inst + hint
        model = None
        if inst:
            st, model = z3_inproc(base + [ng], self.fast)
            if st == 'unsat': return Res('proved', 'z3+instances')
            if ring.eq_parts(goal):
                r = self.by_ring(base, [], goal, depth)
                if r: return r
        # sums of the same length with different summands
        ex = self.sum_ext(base, schemas, goal, depth, slow) if depth < 2 else []
        if ex:
            base = base + ex
            st, model = z3_inproc(base + [ng], self.fast)
            if st == 'unsat': return Res('proved', 'z3+sum-extensionality')
            if ring.eq_parts(goal):
                r = self.by_ring(base, [], goal, depth)
                if r: return r
        ax = trans_axioms(base + [ng])
        full = base + ax
        if ax:
            st, model = z3_inproc(full + [ng], self.fast)
            if st == 'unsat': return Res('proved', 'z3+axioms')
        # only the facts connected to the goal
        cone = cone_of(full, ng)
        if len(cone) < len(full):
            st, m2 = z3_inproc(cone + [ng], self.fast)
            if st == 'unsat': return Res('proved', 'z3+cone')
        if ring.eq_parts(goal) and depth < 3:
            # case split on the conditions of conditional expressions
            r = self.by_cases(base, schemas, goal, slow, rounds, depth, hints)
            if r: return r
        if slow <= 0: return Res('unknown', 'quick', model=model)
        # 4. portfolio
        cmds = []
        try:
            cmds.append(('z3-new', [Z3NEW, '-T:%d' % (slow + 1)], smt2(full + [ng])))
            cmds.append(('cvc5', [CVC5, '--tlimit=%d' % int(slow * 1000), '--nl-ext-tplanes'], '(set-logic ALL)\n' + smt2(full + [ng])))
        except z3.Z3Exception:
            pass
        tac = '(check-sat-using (then simplify propagate-values solve-eqs elim-term-ite simplify purify-arith simplify solve-eqs qfnra-nlsat))'
        for label, es in (('nlsat', full), ('nlsat-cone', cone), ('nlsat-tight', tight(full, ng))):
            try:
                rel = relax(es + [ng])
                cmds.append((label, [Z3NEW, '-T:%d' % (slow + 1)], smt2(rel, check=tac)))
                cmds.append((label + '-z3', [Z3NEW, '-T:%d' % (slow + 1)], smt2(rel)))
            except (ValueError, z3.Z3Exception):
                pass
        st, who = run_cli(cmds, slow)
        if st == 'unsat': return Res('proved', who)
        # last: conditional expressions whose condition is decided, and applications of exp, log and sqrt
        # whose arguments are equal rational functions
        if depth == 0:
            dec = self.decided(base, goal)
            sub = (lambda x: z3.substitute(x, *dec)) if dec else (lambda x: x)
            known = [c if z3.is_true(v) else z3.Not(c) for c, v in dec]
            # (nothing is assumed: each of `known` is a consequence of base)
            b2, g2 = [z3.simplify(sub(f)) for f in base] + known, sub(goal)
            b2 = self.released(b2, g2) + b2
            eqs = self.equal_applications(b2, g2)
            if dec or eqs:
                if eqs:
                    pairs = [(e.arg(0), e.arg(1)) for e in eqs]
                    b2, g2 = [z3.substitute(f, *pairs) for f in b2] + eqs, z3.substitute(g2, *pairs)
                r = self._prove(b2, schemas, g2, 0, rounds, 2, hints)
                if r.status == 'proved': return r
        return Res('failed' if model is not None or st == 'sat' else 'unknown', who, model=model, detail='' if model is None else model_str(model))

    def decided(self, facts, goal):
        """The conditions of conditional expressions that follow from the facts, or are contradicted by them."""
        out, n = [], 0
        for x in subterms(list(facts) + [goal]).values():
            if not z3.is_app_of(x, z3.Z3_OP_ITE) or any(c.eq(x.arg(0)) for c, _ in out): continue
            n += 1
            if n > 40: break
            c = x.arg(0)
            cn = cone_of(facts, c)
            if z3_inproc(cn + [z3.Not(c)], 200)[0] == 'unsat': out.append((c, z3.BoolVal(True)))
            elif z3_inproc(cn + [c], 200)[0] == 'unsat': out.append((c, z3.BoolVal(False)))
        return out

    def released(self, facts, goal):
        """The equalities among the facts' guarded equalities (guard or ... or l == r) whose guards are refuted."""
        out, n, rel = [], 0, {x.get_id() for x in subterms([goal]).values() if is_ui(x)}
        for f in flat_and(facts):
            if not z3.is_or(f): continue
            es = [x for x in f.children() if ring.eq_parts(x)]
            if len(es) != 1 or not any(is_ui(x) and x.get_id() in rel for x in subterms(es).values()): continue
            gs = [x for x in f.children() if not x.eq(es[0])]
            n += 1
            if n > 40: break
            cn = [x for x in facts if not x.eq(f) and consts_of(x) & consts_of(z3.Or(gs)) and len(consts_of(x)) <= 4]
            if z3_inproc(cn + [z3.Or(gs)], 200)[0] == 'unsat': out.append(es[0])
        return out

    def equal_applications(self, facts, goal):
        """f(a) == f(b) for the applications f(a), f(b) of exp, log and sqrt in the goal (and the facts that
        share a constant with it) where a == b follows by normalisation."""
        rel = consts_of(goal)
        near = [f for f in facts if consts_of(f) & rel]
        apps = {}
        for x in subterms([goal] + near).values():
            if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in ('exp', 'log', 'sqrt'):
                apps.setdefault(x.decl().name(), []).append(x)
        out, tried = [], 0
        for xs in apps.values():
            xs.sort(key=lambda x: len(str(x)))
            reps = []
            for x in xs:
                for y in reps:
                    if tried >= 60: return out
                    if not (consts_of(x) & consts_of(y)): continue
                    tried += 1
                    if self.by_ring(facts, [], x.arg(0) == y.arg(0), 2):
                        out.append(x == y)
                        break
                else: reps.append(x)
        return out

    def by_ring(self, facts, schemas, goal, depth):
        l, r_ = ring.eq_parts(goal)
        eqs = []
        rel = set(consts_of(goal))
        pool = [f for f in flat_and(facts) if ring.eq_parts(f)]
        # definitional equalities in the cone of the goal
        chosen = []
        changed = True
        left = [(f, consts_of(f)) for f in pool]
        while changed and len(chosen) < 60:
            changed = False
            for f, cs in list(left):
                if cs & rel:
                    chosen.append(f); left.remove((f, cs)); rel |= cs; changed = True
        for attempt in ([], chosen):
            if attempt is chosen and not chosen: continue
            side = ring.prove_eq(l, r_, [ring.eq_parts(f) for f in attempt])
            if side is None: continue
            ok = True
            for s in side:
                st, _ = z3_inproc(facts + [z3.Not(s)], self.fast)
                if st != 'unsat':
                    r = self._prove(facts, schemas, s, 3.0, 2, depth + 2, []) if depth < 2 else Res('unknown')
                    if r.status != 'proved': ok = False; break
            if ok: return Res('proved', 'ring-normal-form')
        return None

    def by_cases(self, facts, schemas, goal, slow, rounds, depth, hints):
        conds = []
        for x in subterms([goal]).values():
            if z3.is_app_of(x, z3.Z3_OP_ITE) and not any(c.eq(x.arg(0)) for c in conds): conds.append(x.arg(0))
        if not conds or len(conds) > 6: return None
        c = conds[0]
        bks = set()
        for v in (True, False):
            h = c if v else z3.Not(c)
            st, _ = z3_inproc(facts + [h], self.fast)
            if st == 'unsat': continue
            g2 = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v))))
            r = self._prove(facts + [h], schemas, g2, slow, rounds, depth + 1, hints)
            if r.status != 'proved': return None
            bks.add(r.backend)
        return Res('proved', 'cases(%s)' % '+'.join(sorted(bks)))

    def sum_ext(self, facts, schemas, goal, depth, slow):
        """Pairs of sums in the goal with the same bound: prove the summands equal pointwise."""
        c = core.CTX
        if c is None or not c.sums: return []
        byname = {F.name(): (F, a, used, cK) for (F, a, used, cK) in c.sums.values()}
        apps = [x for x in subterms([goal]).values() if is_ui(x) and x.decl().name() in byname]
        out = []
        n = 0
        if not ring.eq_parts(goal):
            # the sum of positive (nonnegative) terms is positive (nonnegative)
            def at(x, j):
                _, ax, ux, kx = byname[x.decl().name()]
                e = z3.substitute(ax, *([(p, q) for p, q in zip(ux, x.children()[:-1])] + [(kx, j)]))
                return z3.ToReal(e) if z3.is_int(e) else e
            combos, seen_ = [], set()
            for nd in subterms([goal]).values():
                if not (z3.is_add(nd) or is_ui(nd) and nd.decl().name() in byname): continue
                acc = {}
                lincomb(nd, 1, acc)
                grp = {}
                for v_ in acc.values():
                    if isinstance(v_, tuple) and is_ui(v_[0]) and v_[0].decl().name() in byname and v_[1] != 0: grp.setdefault(v_[0].children()[-1].get_id(), []).append(v_)
                for g_ in grp.values():
                    if g_[0][1] < 0: g_ = [(x, -k) for x, k in g_]
                    key = tuple(sorted((x.get_id(), k / abs(g_[0][1])) for x, k in g_))
                    if key not in seen_: seen_.add(key); combos.append(g_)
            combos.sort(key=lambda g: -len(g))
            fkey = hash(tuple(f.get_id() for f in facts))
            for g_ in combos[:8]:
                if len(g_) == 1 and out: break
                mk = (fkey, tuple((x.get_id(), k) for x, k in g_))
                if mk in POSMEMO:
                    out += POSMEMO[mk][0]
                    continue
                had = len(out)
                nx = g_[0][0].children()[-1]
                j = z3.Int('sumpos!%d!%d' % (depth, n)); n += 1
                num = lambda k: z3.RealVal(str(k))
                ex = z3.Sum(*[num(k) * at(x, j) for x, k in g_])
                x = z3.Sum(*[num(k) * (z3.ToReal(y) if z3.is_int(y) else y) for y, k in g_])
                for strict in (True, False):
                    r = self._prove(facts + [j >= 0, j < nx], schemas, ex > 0 if strict else ex >= 0, 0, 2, depth + 1, [])
                    if r.status == 'proved':
                        out.append(z3.Implies(nx > 0, x > 0) if strict else z3.Implies(nx >= 0, x >= 0))
                        out.append(z3.Implies(nx == 0, x == 0))
                        break
                POSMEMO[mk] = (out[had:], g_, facts)
        n = 0
        sides = ring.eq_parts(goal)
        left = set() if sides is None else {x.get_id() for x in subterms([sides[0]]).values()}
        right = set() if sides is None else {x.get_id() for x in subterms([sides[1]]).values()}
        cross = lambda x, y: sides is not None and (x.get_id() in left) != (y.get_id() in left) and (x.get_id() in right) != (y.get_id() in right)
        cands = []
        for x, y in itertools.combinations(apps, 2):
            if x.decl().eq(y.decl()) and len(x.children()) == 1: continue
            _, ax, ux, kx = byname[x.decl().name()]
            _, ay, uy, ky = byname[y.decl().name()]
            j = z3.Int('sumext!%d!%d' % (depth, len(cands)))
            ex = z3.substitute(ax, *([(p, q) for p, q in zip(ux, x.children()[:-1])] + [(kx, j)]))
            ey = z3.substitute(ay, *([(p, q) for p, q in zip(uy, y.children()[:-1])] + [(ky, j)]))
            if z3.is_int(ex) != z3.is_int(ey): continue
            df = concrete(z3.simplify(x.children()[-1] - y.children()[-1]))
            if isinstance(df, int) and 1 <= abs(df) <= 2:
                # sums over ranges of lengths differing by a constant: terms dropped at the head or at the tail
                shifted = (z3.substitute(ex, (j, j + df)), ey) if df > 0 else (ex, z3.substitute(ey, (j, j - df)))
                sg = 1 if 1 in (numeric_match(*shifted, byname), numeric_match(ex, ey, byname)) else 0
            else: sg = numeric_match(ex, ey, byname)
            cands.append(((sg == 0, not cross(x, y), len(cands)), sg, x, y, j, ex, ey))
        cands.sort(key=lambda c_: c_[0])
        for rank, sg, x, y, j, ex, ey in cands:
            if rank[0] and (out or n >= 4): break
            nx, ny = x.children()[-1], y.children()[-1]
            if not nx.eq(ny):
                df = concrete(z3.simplify(nx - ny))
                if isinstance(df, int) and 1 <= abs(df) <= 2:
                    r = self.sum_shift(facts, schemas, byname, *((x, y, df) if df > 0 else (y, x, -df)), depth, j)
                    if r is not None: out.append(r)
                    continue
                if z3_inproc(facts + [nx != ny], 200)[0] != 'unsat': continue
            n += 1
            if n > 12: break
            for k in ((sg,) if sg else (1, -1)):
                r = self._prove(facts + [j >= 0, j < nx], schemas, ex == ey if k == 1 else ex == -ey, min(slow, 3.0) if k == 1 else 0, 2, depth + 1, [])
                if r.status == 'proved':
                    out.append(x == y if k == 1 else x == -y); break
        return out

    def sum_shift(self, facts, schemas, byname, x, y, df, depth, j):
        """x sums df more terms than y: split off its first (or last) df terms and compare the rest pointwise."""
        def body(s_, i):
            _, a, u, k = byname[s_.decl().name()]
            return z3.substitute(a, *([(p, q) for p, q in zip(u, s_.children()[:-1])] + [(k, i)]))
        ny = y.children()[-1]
        for head in (True, False):
            ex, ey = body(x, j + df if head else j), body(y, j)
            if numeric_match(ex, ey, byname) != 1: continue
            r = self._prove(facts + [j >= 0, j < ny], schemas, z3.simplify(ex) == z3.simplify(ey), 0, 2, depth + 1, [])
            if r.status == 'proved':
                rest = [body(x, z3.IntVal(i) if head else ny + i) for i in range(df)]
                return z3.Implies(ny >= 0, x == y + (z3.Sum(*rest) if len(rest) > 1 else rest[0]))
        return None


POSMEMO = {}


class NumEval:
    """Value of a term under one pseudo-random interpretation of its free symbols (sums are summed)."""
    def __init__(self, salt, sums): self.salt, self.sums, self.memo = salt, sums, {}

    def rnd(self, key, isint):
        import hashlib
        h = int.from_bytes(hashlib.md5(repr((self.salt,) + key).encode()).digest()[:6], 'big')
        return h % 7 if isint else 0.3 + (h % 1000003) / 600000.0

    def ev(self, e):
        k = e.get_id()
        if k not in self.memo: self.memo[k] = (self._ev(e), e)
        return self.memo[k][0]

    def _ev(self, e):
        import math
        c = concrete(e)
        if c is not None: return c if isinstance(c, bool) else (int(c) if z3.is_int(e) else float(c))
        kd, ch = e.decl().kind(), e.children()
        if kd == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            a = [self.ev(x) for x in ch]
            if nm in self.sums:
                _, body, used, cK = self.sums[nm]
                n = int(round(a[-1])); n = n if 0 <= n <= 8 else n % 5
                tot = 0
                for j in range(n):
                    tot += self.ev(z3.substitute(body, *([(p, q) for p, q in zip(used, ch[:-1])] + [(cK, z3.IntVal(j))])))
                return tot
            if nm == 'exp': return math.exp(max(-50, min(50, a[0])))
            if nm == 'log': return math.log(abs(a[0]) + 1e-300)
            if nm == 'sqrt': return math.sqrt(abs(a[0]))
            key = (nm,) + tuple(round(float(x), 7) for x in a)
            if z3.is_bool(e): return self.rnd(key, True) % 2 == 0
            return self.rnd(key, z3.is_int(e))
        if kd == z3.Z3_OP_ITE: return self.ev(ch[1]) if self.ev(ch[0]) else self.ev(ch[2])
        a = [self.ev(x) for x in ch]
        near = lambda x, y: abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
        if kd == z3.Z3_OP_ADD: return sum(a)
        if kd == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
        if kd == z3.Z3_OP_UMINUS: return -a[0]
        if kd == z3.Z3_OP_MUL:
            r = 1
            for x in a: r *= x
            return r
        if kd == z3.Z3_OP_DIV: return a[0] / (a[1] if abs(a[1]) > 1e-12 else 1e-12)
        if kd == z3.Z3_OP_IDIV: return a[0] // (a[1] or 1)
        if kd == z3.Z3_OP_MOD: return a[0] % (a[1] or 1)
        if kd == z3.Z3_OP_TO_REAL: return float(a[0])
        if kd == z3.Z3_OP_TO_INT: return int(math.floor(a[0]))
        if kd == z3.Z3_OP_POWER: return abs(a[0]) ** a[1]
        if kd == z3.Z3_OP_LE: return a[0] <= a[1]
        if kd == z3.Z3_OP_GE: return a[0] >= a[1]
        if kd == z3.Z3_OP_LT: return a[0] < a[1]
        if kd == z3.Z3_OP_GT: return a[0] > a[1]
        if kd == z3.Z3_OP_EQ: return a[0] == a[1] if isinstance(a[0], bool) else near(a[0], a[1])
        if kd == z3.Z3_OP_DISTINCT: return not near(a[0], a[1])
        if kd == z3.Z3_OP_AND: return all(a)
        if kd == z3.Z3_OP_OR: return any(a)
        if kd == z3.Z3_OP_NOT: return not a[0]
        if kd == z3.Z3_OP_IMPLIES: return (not a[0]) or a[1]
        raise ValueError('no value')


def numeric_match(x, y, sums):
    """1 if the terms agree, -1 if they are opposite, 0 otherwise, under pseudo-random interpretations"""
    try:
        sg = {1, -1}
        for salt in range(3):
            m = NumEval(salt, sums)
            a, b = float(m.ev(x)), float(m.ev(y))
            tol = 1e-7 * (1 + abs(a) + abs(b))
            if abs(a - b) > tol: sg.discard(1)
            if abs(a + b) > tol: sg.discard(-1)
        return 1 if 1 in sg else -1 if -1 in sg else 0
    except (ValueError, OverflowError, RecursionError): return 0


def flat_and(fs):
    out = []
    for f in fs:
        if z3.is_and(f): out += flat_and(f.children())
        else: out.append(f)
    return out


_CC = {}


def consts_of(e):
    """names of uninterpreted symbols (constants and functions other than the transcendental ones)"""
    r = _CC.get(e.get_id())
    if r is not None: return r[0]
    s = set()
    for x in subterms([e]).values():
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() not in TRANS:
            s.add(x.decl().name() if not x.num_args() else x.decl().name())
    _CC[e.get_id()] = (s, e)
    return s


def facts_relevant(facts, goal): return facts


def cone_of(facts, goal):
    rel = set(consts_of(goal))
    out, left = [], [(f, consts_of(f)) for f in facts]
    for _ in range(2):
        nxt = set()
        rest = []
        for f, cs in left:
            if cs & rel: out.append(f); nxt |= cs
            else: rest.append((f, cs))
        left = rest
        rel |= nxt
    return out


def tight(facts, goal):
    rel = consts_of(goal)
    return [f for f in facts if consts_of(f) <= rel]


def model_str(m, n=40):
    try:
        ds = sorted(m.decls(), key=lambda d: d.name())
        return '; '.join('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:80]) for d in ds[:n])
    except z3.Z3Exception:
        return ''
