"""Equational back end: normal forms of rational expressions over atoms (constants and applications
of uninterpreted functions), with exp, log and square root rewritten.  Every rewriting records the
side condition it needs (nonzero denominator, nonnegative radicand, positive logarithm argument)."""
from fractions import Fraction
import z3
from .core import EXP, LOG, SQRT, POW, concrete

ONE = ()


class TooBig(Exception):
    pass


LIMIT = 6000


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r


def m_mul(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v == 0: d.pop(a, None)
        else: d[a] = v
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 20: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    if len(r) > LIMIT: raise TooBig()
    return r


def p_const(c): return {} if c == 0 else {ONE: Fraction(c)}


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n): r = p_mul(r, a)
    return r


def key_p(p): return tuple(sorted(p.items()))


class Norm:
    """Converts z3 real/int terms to (num, den)."""

    def __init__(self, subst=None):
        self.atoms = {}      # key -> id
        self.info = []       # id -> (kind, data)
        self.side = []       # z3 side conditions
        self.memo = {}
        self.defs = {}       # atom id -> (num, den) definitional substitution
        self.keep = []

    def atom(self, key, info):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.info)
            self.atoms[key] = i
            self.info.append(info)
        return i

    def a_poly(self, i): return {((i, Fraction(1)),): Fraction(1)}

    def norm(self, e):
        k = e.get_id()
        if k in self.memo: return self.memo[k]
        self.keep.append(e)
        r = self._norm(e)
        self.memo[k] = r
        return r

    def frac_mul(self, x, y): return self.fr(p_mul(x[0], y[0]), p_mul(x[1], y[1]))

    def frac_add(self, x, y, s=1):
        if key_p(x[1]) == key_p(y[1]): return self.fr(p_add(x[0], y[0], s), x[1])
        return self.fr(p_add(p_mul(x[0], y[1]), p_mul(y[0], x[1]), s), p_mul(x[1], y[1]))

    def fr(self, n, d):
        """Reduce square roots, cancel common monomials and equal polynomials."""
        n, d = self.red(n), self.red(d)
        n, nd = n
        d, dd = d
        if nd is not None: d = p_mul(d, nd)
        if dd is not None: n = p_mul(n, dd)
        if not n: return {}, p_const(1)
        if not d: raise ZeroDivisionError
        if len(d) == 1:
            (m, c), = d.items()
            inv = tuple((a, -e) for a, e in m)
            # monomial denominators are kept as negative exponents
            n = {m_mul(k, inv): v / c for k, v in n.items()}
            return n, p_const(1)
        # scale leading coefficient of the denominator, pull common monomial
        ms = list(d)
        common = None
        for m in ms:
            dm = dict(m)
            if common is None: common = dm
            else: common = {a: min(common.get(a, 0), dm.get(a, 0)) for a in set(common) | set(dm)}
        common = {a: e for a, e in common.items() if e != 0}
        if common:
            inv = tuple(sorted((a, -e) for a, e in common.items()))
            d = {m_mul(k, inv): v for k, v in d.items()}
            n = {m_mul(k, inv): v for k, v in n.items()}
        lc = d[max(d)]
        if lc != 1:
            d = {k: v / lc for k, v in d.items()}
            n = {k: v / lc for k, v in n.items()}
        if key_p(n) == key_p(d): return p_const(1), p_const(1)
        return n, d

    def red(self, p):
        """sqrt atoms with exponents outside {0,1}: s^2 -> its radicand."""
        need = False
        for m in p:
            for a, e in m:
                if self.info[a][0] == 'sqrt' and not (e == 1): need = True
        if not need: return p, None
        tot = ({}, p_const(1))
        for m, c in p.items():
            t = ({ONE: c}, p_const(1))
            rest = []
            for a, e in m:
                if self.info[a][0] == 'sqrt' and e != 1:
                    q = e // 2
                    r = e - 2 * q
                    n, d = self.info[a][1]
                    q = int(q)
                    if q >= 0: t = (p_mul(t[0], p_pow(n, q)), p_mul(t[1], p_pow(d, q)))
                    else: t = (p_mul(t[0], p_pow(d, -q)), p_mul(t[1], p_pow(n, -q)))
                    if r: rest.append((a, r))
                else:
                    rest.append((a, e))
            t = (p_mul(t[0], {tuple(sorted(rest)): Fraction(1)}), t[1])
            if key_p(t[1]) == key_p(tot[1]): tot = (p_add(tot[0], t[0]), tot[1])
            else: tot = (p_add(p_mul(tot[0], t[1]), p_mul(t[0], tot[1])), p_mul(tot[1], t[1]))
        n, d = tot
        n, n2 = self.red(n)
        d, d2 = self.red(d)
        if n2 is not None: d = p_mul(d, n2)
        if d2 is not None: n = p_mul(n, d2)
        return n, (None if key_p(d) == key_p(p_const(1)) else d)

    def _norm(self, e):
        c = concrete(e)
        if c is not None and not isinstance(c, bool): return p_const(c), p_const(1)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for x in ch[1:]: r = self.frac_add(r, self.norm(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for x in ch[1:]: r = self.frac_add(r, self.norm(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(ch[0])
            return {m: -v for m, v in n.items()}, d
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for x in ch[1:]: r = self.frac_mul(r, self.norm(x))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.norm(ch[0]), self.norm(ch[1])
            if concrete(ch[1]) is None: self.side.append(ch[1] != 0)
            if not b[0]: raise ZeroDivisionError
            return self.fr(p_mul(a[0], b[1]), p_mul(a[1], b[0]))
        if k == z3.Z3_OP_TO_REAL: return self.norm(ch[0])
        if k == z3.Z3_OP_POWER:
            n = concrete(ch[1])
            if n is not None and Fraction(n).denominator == 1 and 0 <= n < 20:
                r = (p_const(1), p_const(1)); b = self.norm(ch[0])
                for _ in range(int(n)): r = self.frac_mul(r, b)
                return r
        if k == z3.Z3_OP_ITE:
            r = self.n_ite(e)
            if r is not None: return r
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            d = e.decl()
            if d.eq(EXP): return self.n_exp(self.norm(ch[0]))
            if d.eq(LOG): return self.n_log(ch[0])
            if d.eq(SQRT): return self.n_sqrt(ch[0])
            if d.eq(POW):
                self.side.append(ch[0] > 0)
                return self.n_exp(self.frac_mul(self.norm(ch[1]), self.n_log(ch[0])))
            args = []
            for x in ch:
                if z3.is_bool(x): args.append(('b', z3.simplify(x).get_id())); self.keep.append(x); continue
                n, dd = self.norm(x)
                args.append((key_p(n), key_p(dd)))
            i = self.atom((d.name(),) + tuple(args), ('app', e))
        elif k == z3.Z3_OP_UNINTERPRETED:
            i = self.atom(('c', e.get_id()), ('const', e))
        else:
            s = z3.simplify(e)
            if not s.eq(e) and s.decl().kind() != k: return self.norm(s)
            self.keep.append(s)
            i = self.atom(('t', s.get_id()), ('term', s))
        if i in self.defs: return self.defs[i]
        return self.a_poly(i), p_const(1)

    def n_ite(self, e):
        """maximum, minimum and absolute value through |x| (canonical up to sign and content)"""
        c, a, b = e.children()
        flip = False
        while z3.is_not(c): c = c.arg(0); flip = not flip
        ck = c.decl().kind()
        if ck in (z3.Z3_OP_GE, z3.Z3_OP_GT): L, R = c.children()
        elif ck in (z3.Z3_OP_LE, z3.Z3_OP_LT): R, L = c.children()
        else: return None
        if flip: a, b = b, a
        na, nb = self.norm(a), self.norm(b)
        d = self.frac_add(na, nb, -1)
        if not d[0]: return nb
        x = self.frac_add(self.norm(L), self.norm(R), -1)
        if not x[0] or key_p(x[1]) != key_p(d[1]): return None
        # d = lam x ?
        m0 = max(d[0])
        if set(d[0]) != set(x[0]): return None
        lam = d[0][m0] / x[0][m0]
        if any(d[0][m] != lam * x[0][m] for m in d[0]): return None
        lc = x[0][max(x[0])]
        n = {m: v / lc for m, v in x[0].items()}
        i = self.atom(('abs', key_p(n), key_p(x[1])), ('abs', (n, x[1])))
        ab = ({((i, Fraction(1)),): abs(lc)}, p_const(1))
        half = (p_const(lam / 2), p_const(1))
        return self.frac_add(nb, self.frac_mul(half, self.frac_add(x, ab)))

    def n_exp(self, a):
        n, d = a
        mono = []
        for m, c in n.items():
            # base atom exp(m/d), exponent c
            key = ('exp', m, key_p(d))
            i = self.atom(key, ('exp', (m, d)))
            # exp(log-atom * c) = atom**c when m is exactly a log atom and d = 1
            if len(m) == 1 and m[0][1] == 1 and key_p(d) == key_p(p_const(1)) and self.info[m[0][0]][0] == 'log' and c.denominator == 1:
                mono.append(('frac', self.info[m[0][0]][1], int(c)))
            else:
                mono.append(('atom', i, c))
        r = (p_const(1), p_const(1))
        for kind, x, c in mono:
            if kind == 'atom': r = self.frac_mul(r, ({((x, c),): Fraction(1)}, p_const(1)))
            else:
                n_, d_ = x
                for _ in range(abs(c)):
                    r = self.frac_mul(r, (n_, d_) if c > 0 else self.fr(d_, n_))
        return r

    def n_log(self, ze):
        n, d = self.norm(ze)
        self.side.append(ze > 0)
        return self.log_parts(n, d, ze)

    def log_parts(self, n, d, ze):
        tot = (p_const(0), p_const(1))
        for p, s in ((n, 1), (d, -1)):
            if key_p(p) == key_p(p_const(1)): continue
            if len(p) == 1:
                (m, c), = p.items()
                # log of a monomial: every factor must be positive (checked as side condition)
                if c <= 0 : return self.log_atom(n, d)
                tot = self.frac_add(tot, self.log_num(c), s)
                for a, e in m:
                    kind, data = self.info[a]
                    if kind == 'exp':
                        mm, dd = data
                        t = self.fr({mm: e}, dd)
                    elif kind == 'sqrt':
                        nn, dd = data
                        self.side.append(('pos', nn, dd))
                        t = self.log_parts(nn, dd, None)
                        t = self.frac_mul(t, (p_const(e / 2), p_const(1)))
                    else:
                        self.side.append(('pos', self.a_poly(a), p_const(1)))
                        i = self.atom(('log', key_p(self.a_poly(a)), key_p(p_const(1))), ('log', (self.a_poly(a), p_const(1))))
                        t = ({((i, Fraction(1)),): Fraction(e)}, p_const(1))
                    tot = self.frac_add(tot, t, s)
            else:
                self.side.append(('pos', p, p_const(1)))
                # pull content and common monomial
                i, extra = self.log_poly(p)
                tot = self.frac_add(tot, extra, s)
                tot = self.frac_add(tot, (self.a_poly(i), p_const(1)), s)
        return tot

    def log_poly(self, p):
        """log p = log content + log(common monomial) + atom(log primitive)."""
        common = None
        for m in p:
            dm = dict(m)
            if common is None: common = dm
            else: common = {a: min(common.get(a, 0), dm.get(a, 0)) for a in set(common) | set(dm)}
        common = {a: e for a, e in (common or {}).items() if e != 0}
        lc = abs(p[max(p)])
        inv = tuple(sorted((a, -e) for a, e in common.items()))
        q = {m_mul(k, inv): v / lc for k, v in p.items()}
        extra = self.log_num(lc)
        if common: extra = self.frac_add(extra, self.log_parts({tuple(sorted(common.items())): Fraction(1)}, p_const(1), None))
        i = self.atom(('log', key_p(q), key_p(p_const(1))), ('log', (q, p_const(1))))
        return i, extra

    def log_atom(self, n, d):
        i = self.atom(('log', key_p(n), key_p(d)), ('log', (n, d)))
        return self.a_poly(i), p_const(1)

    def log_num(self, c):
        """log of a positive rational as sum over primes."""
        tot = (p_const(0), p_const(1))
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            q = 2
            if v > 10 ** 8:
                i = self.atom(('log', key_p(p_const(v)), key_p(p_const(1))), ('log', (p_const(v), p_const(1))))
                tot = self.frac_add(tot, (self.a_poly(i), p_const(1)), s)
                continue
            while v > 1:
                e = 0
                while v % q == 0: v //= q; e += 1
                if e:
                    i = self.atom(('log', key_p(p_const(q)), key_p(p_const(1))), ('log', (p_const(q), p_const(1))))
                    tot = self.frac_add(tot, ({((i, Fraction(1)),): Fraction(e)}, p_const(1)), s)
                q += 1
                if q * q > v and v > 1: q = v
        return tot

    def n_sqrt(self, ze):
        n, d = self.norm(ze)
        self.side.append(ze >= 0)
        # pull squares out of a monomial radicand
        if len(d) == 1 and len(n) == 1 and key_p(d) == key_p(p_const(1)):
            (m, c), = n.items()
            if c > 0:
                out, inn = [], []
                ok = True
                for a, e in m:
                    if self.info[a][0] == 'exp': out.append((a, e / 2)); continue
                    if Fraction(e).denominator != 1: ok = False; break
                    if self.info[a][0] == 'sqrt': inn.append((a, e)); continue
                    q = int(e) // 2
                    if e % 2 == 0:
                        self.side.append(('nonneg', self.a_poly(a), p_const(1)))
                        out.append((a, Fraction(q)))
                    else:
                        self.side.append(('nonneg', self.a_poly(a), p_const(1)))
                        if q: out.append((a, Fraction(q)))
                        inn.append((a, Fraction(1)))
                import math
                if ok:
                    rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if rn * rn == c.numerator and rd * rd == c.denominator: co, ci = Fraction(rn, rd), Fraction(1)
                    else: co, ci = Fraction(1, c.denominator), Fraction(c.numerator * c.denominator)
                    r = ({tuple(sorted(out)): co}, p_const(1))
                    # product of individual square roots
                    for a, e in inn:
                        pa = self.a_poly(a) if e == 1 else {((a, e),): Fraction(1)}
                        i = self.atom(('sqrt', key_p(pa), key_p(p_const(1))), ('sqrt', (pa, p_const(1))))
                        r = self.frac_mul(r, (self.a_poly(i), p_const(1)))
                    if ci != 1:
                        i = self.atom(('sqrt', key_p(p_const(ci)), key_p(p_const(1))), ('sqrt', (p_const(ci), p_const(1))))
                        r = self.frac_mul(r, (self.a_poly(i), p_const(1)))
                    return r
        i = self.atom(('sqrt', key_p(n), key_p(d)), ('sqrt', (n, d)))
        return self.a_poly(i), p_const(1)

    # -- back to z3 (for side conditions)
    def to_z3(self, n, d):
        def poly(p):
            ts = []
            for m, c in p.items():
                t = z3.RealVal(c)
                for a, e in m:
                    x = self.atom_z3(a)
                    if Fraction(e).denominator == 1:
                        for _ in range(abs(int(e))): t = t * x if e > 0 else t / x
                    else:
                        t = t * POW(x, z3.RealVal(e))
                ts.append(t)
            return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        pn = poly(n)
        return pn if key_p(d) == key_p(p_const(1)) else pn / poly(d)

    def atom_z3(self, a):
        kind, data = self.info[a]
        if kind in ('const', 'app', 'term'):
            return z3.ToReal(data) if z3.is_int(data) else data
        if kind == 'exp':
            m, d = data
            return EXP(self.to_z3({m: Fraction(1)}, d))
        if kind == 'log': return LOG(self.to_z3(*data))
        return SQRT(self.to_z3(*data))

    def side_z3(self):
        out, seen = [], set()
        for s in self.side:
            if isinstance(s, tuple):
                x = self.to_z3(s[1], s[2])
                s = x > 0 if s[0] == 'pos' else x >= 0
            s = z3.simplify(s)
            if z3.is_true(s): continue
            if s.get_id() in seen: continue
            seen.add(s.get_id()); out.append(s)
        return out


def eq_parts(e):
    if z3.is_eq(e) and (z3.is_real(e.arg(0)) or z3.is_int(e.arg(0))): return e.arg(0), e.arg(1)
    return None


def prove_eq(lhs, rhs, eqs=()):
    """Returns the list of side conditions under which lhs == rhs follows by normalisation (and the
    definitional equalities eqs), or None."""
    N = Norm()
    try:
        # goal atoms first, so that definitions are oriented towards them
        for a, b in eqs:
            try:
                x, y = N.norm(a), N.norm(b)
                n, d = N.frac_add(x, y, -1)
            except (TooBig, ZeroDivisionError):
                continue
            if not n or len(n) > 400: continue
            # an atom occurring linearly with constant coefficient
            cand = None
            occ = {}
            for m, c in n.items():
                for at, e in m: occ.setdefault(at, []).append((m, c, e))
            for at, o in occ.items():
                if len(o) == 1 and len(o[0][0]) == 1 and o[0][2] == 1 and N.info[at][0] in ('const', 'app', 'term') and not inside(N, at, occ):
                    if cand is None or at > cand[0]: cand = (at, o[0][1])
            if cand is None: continue
            at, c = cand
            rest = {m: -v / c for m, v in n.items() if not (len(m) == 1 and m[0][0] == at)}
            N.defs[at] = (rest, p_const(1))
            N.memo.clear()
            resub(N, at)
        for _ in range(1):
            N.memo.clear()
            N.side = [s for s in N.side]
            x, y = N.norm(lhs), N.norm(rhs)
            n, d = N.frac_add(x, y, -1)
        if n:
            return None
        return N.side_z3()
    except (TooBig, ZeroDivisionError, RecursionError):
        return None


def inside(N, at, occ):
    """does `at` occur inside another atom of the equation?"""
    key = None
    for a in occ:
        if a == at: continue
        kind, data = N.info[a]
        if kind == 'app' and mention(N, data, at): return True
        if kind in ('exp',):
            if any(x == at for x, _ in data[0]) or any(x == at for m in data[1] for x, _ in m): return True
        if kind in ('sqrt', 'log'):
            if any(x == at for p in data for m in p for x, _ in m): return True
    return False


def mention(N, e, at):
    kind, data = N.info[at]
    if kind not in ('const', 'app', 'term'): return False
    tid = data.get_id()
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() == tid: return True
        st.extend(x.children())
    return False


def resub(N, at):
    """Apply the new definition inside the earlier ones."""
    new = N.defs[at]
    for a, (n, d) in list(N.defs.items()):
        if a == at: continue
        if not any(x == at for p in (n, d) for m in p for x, _ in m): continue
        try: N.defs[a] = sub_fr(N, (n, d), at, new)
        except (TooBig, ZeroDivisionError): pass


def sub_fr(N, f, at, new):
    def sp(p):
        tot = ({}, p_const(1))
        for m, c in p.items():
            t = ({ONE: c}, p_const(1))
            for a, e in m:
                if a == at:
                    if Fraction(e).denominator != 1: raise TooBig()
                    for _ in range(abs(int(e))): t = N.frac_mul(t, new if e > 0 else N.fr(new[1], new[0]))
                else: t = N.frac_mul(t, ({((a, e),): Fraction(1)}, p_const(1)))
            tot = N.frac_add(tot, t)
        return tot
    a, b = sp(f[0]), sp(f[1])
    return N.fr(p_mul(a[0], b[1]), p_mul(a[1], b[0]))
