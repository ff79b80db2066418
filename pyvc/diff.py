"""Symbolic derivative of a scalar expression of the program with respect to one of its inputs."""
import z3
from . import core
from .core import Sym, R, to_real, Unsupported


def deriv(s, x):
    """d s / d x for symbolic scalars; x must be an atomic real term (a constant or an array entry)."""
    if not isinstance(s, Sym): return 0
    memo = {}
    xid = x.e.get_id()
    zero, one = z3.RealVal(0), z3.RealVal(1)

    def has(e, seen={}):
        k = (e.get_id(), xid)
        if e.get_id() == xid: return True
        if k in seen: return seen[k]
        r = any(has(c) for c in e.children())
        seen[k] = r
        return r

    def add(a, b):
        if a.eq(zero): return b
        if b.eq(zero): return a
        return a + b

    def mul(a, b):
        if a.eq(zero) or b.eq(zero): return zero
        if a.eq(one): return b
        if b.eq(one): return a
        return a * b

    def d(e):
        i = e.get_id()
        if i in memo: return memo[i][0]
        r = _d(e)
        memo[i] = (r, e)
        return r

    def _d(e):
        if e.get_id() == xid: return one
        if not has(e, {}): return zero
        k = e.decl().kind()
        c = e.children()
        if k == z3.Z3_OP_ADD:
            r = zero
            for a in c: r = add(r, d(a))
            return r
        if k == z3.Z3_OP_SUB:
            r = d(c[0])
            for a in c[1:]: r = add(r, mul(z3.RealVal(-1), d(a)))
            return r
        if k == z3.Z3_OP_UMINUS: return mul(z3.RealVal(-1), d(c[0]))
        if k == z3.Z3_OP_MUL:
            r = zero
            for j, a in enumerate(c):
                p = d(a)
                for l, b in enumerate(c):
                    if l != j: p = mul(p, b)
                r = add(r, p)
            return r
        if k == z3.Z3_OP_DIV:
            u, w = c
            return add(d(u) / w, mul(z3.RealVal(-1), mul(u, d(w)) / (w * w))) if not d(w).eq(zero) else d(u) / w
        if k == z3.Z3_OP_ITE: return z3.If(c[0], d(c[1]), d(c[2]))
        n = e.decl().name()
        if n == 'exp': return mul(e, d(c[0]))
        if n == 'log': return d(c[0]) / c[0]
        if n == 'sqrt': return d(c[0]) / (2 * e)
        raise Unsupported('derivative of %s' % n)
    return Sym(d(to_real(s.e)), s.bad)
