"""Mechanical instrumentation of the real source of /repo and its loading.

Nothing of the program text is dropped: every module is parsed, loops, comprehensions, conditional
expressions, boolean operators, chained comparisons, membership tests, starred displays and
subscripts are routed through the hooks below (which behave natively on concrete values), and the
result is compiled and executed by CPython itself.  Annotations are kept; docstrings are kept.
"""
import ast
import builtins
import os
import sys
import types
import z3
from fractions import Fraction
from . import core, world, npmodel as M
from .core import Sym, Unsupported, PathDone, ctx, compare, lift, is_num, GenericFork
from .npmodel import Arr, SymList, norm_dim, dim_is_int, ie, asarr

REPO = os.environ.get('PYVC_REPO', '/repo')
MODS = {}
WORLD = world.modules()
ROOTPKG = 'ctbayes'


# ---------------------------------------------------------------- transformer
class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = ['<module>']

    def uid(self, p):
        self.n += 1
        return '__%s%d' % (p, self.n)

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.body = flat(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # comprehension
    def comp(self, kind, node, elt):
        gens = node.generators
        def build(i):
            g = gens[i]
            if g.is_async: raise Unsupported('async comprehension')
            inner = elt if i == len(gens) - 1 else build(i + 1)
            v = self.uid('v')

            def lam(body):
                lc = ast.ListComp(elt=body, generators=[ast.comprehension(target=clone(g.target), iter=ast.Tuple(elts=[name(v)], ctx=ast.Load()), ifs=[], is_async=0)])
                return ast.Lambda(args=args1(v), body=ast.Subscript(value=lc, slice=ast.Constant(0), ctx=ast.Load()))
            cond = ast.Constant(None)
            if g.ifs:
                test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                cond = lam(self.visit(clone(test)))
            k = kind if i == 0 else 'list'
            body = inner if i < len(gens) - 1 else inner
            call = callh('__comp__', ast.Constant(k if len(gens) == 1 else ('flat' + k if i < len(gens) - 1 else k)), self.visit(g.iter), lam(body), cond)
            return call
        elt = self.visit(elt)
        return build(0)

    def visit_ListComp(self, node): return self.comp('list', node, node.elt)
    def visit_GeneratorExp(self, node): return self.comp('gen', node, node.elt)
    def visit_SetComp(self, node): return callh('__set__', self.comp('list', node, node.elt))

    def visit_DictComp(self, node):
        return callh('__dict__', self.comp('list', node, ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())))

    def visit_IfExp(self, node):
        if has(node, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)): return self.generic_visit(node)
        return callh('__ifexp__', self.visit(node.test), lam0(self.visit(node.body)), lam0(self.visit(node.orelse)))

    def visit_BoolOp(self, node):
        if has(node, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)): return self.generic_visit(node)
        return callh('__and__' if isinstance(node.op, ast.And) else '__or__', *[lam0(self.visit(v)) for v in node.values])

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not): return callh('__not__', node.operand)
        return node

    def visit_Compare(self, node):
        if has(node, (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await)): return self.generic_visit(node)
        self.generic_visit(node)
        if len(node.ops) == 1:
            if isinstance(node.ops[0], (ast.In, ast.NotIn)):
                c = callh('__in__', node.left, node.comparators[0])
                return c if isinstance(node.ops[0], ast.In) else callh('__not__', c)
            return node
        return callh('__chain__', ast.Constant([type(o).__name__ for o in node.ops].__repr__()), *[lam0(x) for x in [node.left] + node.comparators])

    def visit_Call(self, node):
        self.generic_visit(node)
        if any(isinstance(a, ast.Starred) for a in node.args):
            parts = [ast.Tuple(elts=[ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ctx=ast.Load()) for a in node.args]
            return ast.Call(func=name('__callstar__'), args=[node.func, ast.List(elts=parts, ctx=ast.Load())], keywords=node.keywords)
        return node

    def display(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(isinstance(a, ast.Starred) for a in node.elts):
            parts = [ast.Tuple(elts=[ast.Constant(isinstance(a, ast.Starred)), a.value if isinstance(a, ast.Starred) else a], ctx=ast.Load()) for a in node.elts]
            return callh('__display__', ast.Constant(isinstance(node, ast.Tuple)), ast.List(elts=parts, ctx=ast.Load()))
        return node

    visit_List = display
    visit_Tuple = display

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, (ast.Slice,)) or (isinstance(node.slice, ast.Constant)):
            if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Slice):
                sl = node.slice
                return callh('__getslice__', node.value, *[x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)])
            return node
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Tuple): sl = ast.Tuple(elts=[slc(x) for x in sl.elts], ctx=ast.Load())
            return callh('__getitem__', node.value, sl)
        if isinstance(node.value, (ast.Name, ast.Attribute)) and not isinstance(node.slice, ast.Tuple):
            v = clone(node.value); v.ctx = ast.Load()
            node.slice = callh('__idx__', v, node.slice)
        return node

    # loops
    def loop(self, node, is_for):
        lid = self.uid('L')
        targets, mut = stores(node)
        mut -= getattr(self, 'imports', set()) - targets
        names = sorted((targets | mut) - {n for n in targets if n.startswith('__')})
        loc = '%s:%d' % (self.fn[-1], node.lineno)
        body = flat([self.visit(s) for s in node.body])
        orelse = flat([self.visit(s) for s in node.orelse])
        out = []
        tgt_names = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)} if is_for else set()
        carried = [n for n in names if n not in tgt_names]
        mk = callh('__loop__', ast.Constant(loc), self.visit(node.iter) if is_for else ast.Constant(None), ast.Constant(is_for),
                   ast.Constant(repr(sorted(mut))))
        out.append(ast.Assign(targets=[name(lid, True)], value=mk))
        done = lid + 'd'
        out.append(ast.Assign(targets=[name(done, True)], value=ast.Constant(False)))
        head = []
        d = ast.Dict(keys=[ast.Constant(n) for n in carried], values=[callh('__peek__', lam0(name(n))) for n in carried])
        cv = lid + 'c'
        head.append(ast.Assign(targets=[name(cv, True)], value=ast.Call(func=ast.Attribute(value=name(lid), attr='head', ctx=ast.Load()), args=[d], keywords=[])))
        for n in carried:
            head.append(ast.If(test=ast.Compare(left=ast.Constant(n), ops=[ast.In()], comparators=[name(cv)]),
                               body=[ast.Assign(targets=[name(n, True)], value=ast.Subscript(value=name(cv), slice=ast.Constant(n), ctx=ast.Load()))], orelse=[]))
        if is_for:
            test = ast.UnaryOp(op=ast.Not(), operand=ast.Call(func=ast.Attribute(value=name(lid), attr='more', ctx=ast.Load()), args=[], keywords=[]))
        else:
            test = ast.UnaryOp(op=ast.Not(), operand=ast.Call(func=ast.Attribute(value=name(lid), attr='test', ctx=ast.Load()), args=[lam0(self.visit(node.test)) if not has(node.test, (ast.NamedExpr, ast.Yield)) else self.visit(node.test)], keywords=[]))
        head.append(ast.If(test=test, body=[ast.Assign(targets=[name(done, True)], value=ast.Constant(True)), ast.Break()], orelse=[]))
        if is_for:
            head.append(ast.Assign(targets=[self.visit(node.target)], value=ast.Call(func=ast.Attribute(value=name(lid), attr='item', ctx=ast.Load()), args=[], keywords=[])))
        out.append(ast.While(test=ast.Constant(True), body=head + body, orelse=[]))
        if orelse:
            out.append(ast.If(test=name(done), body=orelse, orelse=[]))
        return out

    def visit_Module(self, node):
        self.imports = {(a.asname or a.name).split('.')[0] for n in ast.walk(node) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        self.generic_visit(node)
        return node

    def visit_For(self, node): return self.loop(node, True)
    def visit_While(self, node): return self.loop(node, False)

    def generic_visit(self, node):
        for f, old in ast.iter_fields(node):
            if isinstance(old, list):
                new = []
                for v in old:
                    if isinstance(v, ast.AST):
                        v = self.visit(v)
                        if v is None: continue
                        if isinstance(v, list): new.extend(v); continue
                    new.append(v)
                old[:] = new
            elif isinstance(old, ast.AST):
                nn = self.visit(old)
                setattr(node, f, nn)
        return node


def flat(xs):
    out = []
    for x in xs: out.extend(x) if isinstance(x, list) else out.append(x)
    return out


def clone(n):
    import copy
    return copy.deepcopy(n)


def name(n, store=False): return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())
def args1(v): return ast.arguments(posonlyargs=[], args=[ast.arg(arg=v)], kwonlyargs=[], kw_defaults=[], defaults=[])
def lam0(body): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
def callh(f, *a): return ast.Call(func=name(f), args=list(a), keywords=[])


def slc(x):
    if isinstance(x, ast.Slice):
        return callh('slice', *[y if y is not None else ast.Constant(None) for y in (x.lower, x.upper, x.step)])
    return x


def has(node, kinds):
    for n in ast.walk(node):
        if isinstance(n, kinds): return True
    return False


def stores(loop):
    """Names assigned, and names mutated in place, in a loop body (not inside nested functions)."""
    st, mut = set(), set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda): st.add(n.name)
            return
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators: go(g.iter)
            for c in ast.walk(n):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.attr in MUT: mut.add(c.func.value.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): st.add(n.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name): mut.add(n.value.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name): mut.add(n.target.value.id)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUT: mut.add(n.func.value.id)
        for c in ast.iter_child_nodes(n): go(c)
    for s in loop.body: go(s)
    if isinstance(loop, ast.For): go(loop.target)
    return st, mut


MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'add', 'sort', 'reverse', 'fill'}


# ---------------------------------------------------------------- runtime hooks
class Missing:
    pass


MISSING = Missing()


def h_peek(f):
    try:
        return f()
    except NameError:
        return MISSING


class Poison:
    """A loop-carried variable about which nothing is known."""
    def __init__(self, nm): object.__setattr__(self, 'nm', nm)

    def _no(self, *a, **k): raise Unsupported('loop-carried variable %s needs an invariant' % object.__getattribute__(self, 'nm'))
    __getattr__ = __add__ = __radd__ = __sub__ = __mul__ = __bool__ = __getitem__ = __iter__ = __len__ = __call__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __setitem__ = __truediv__ = __rsub__ = __rmul__ = __neg__ = _no
    __hash__ = None


UNROLL = 64


class SymRange(SymList):
    def __init__(self, a, b):
        self.a, self.b = a, b
        n = norm_dim(b - a)
        if not dim_is_int(n) and not M.known_ge(n, 0): n = norm_dim(core.smax2(n, 0))
        super().__init__(n, lambda k: norm_dim(k + a) if not (type(a) is int and a == 0) else k)


class Loop:
    """Driver of one execution of a loop statement."""
    def __init__(self, loc, it, is_for, mut):
        self.loc, self.is_for, self.mut = loc, is_for, set(mut)
        self.owned = set()
        self.iter_count = 0
        self.mode = 'native'
        self.entry = None
        self.spec = None
        self.first = True
        self.src = it
        if is_for:
            if isinstance(it, Arr) and not dim_is_int(it._shape[0]): it = SymList.of_arr(it)
            if isinstance(it, SymList) and not dim_is_int(it.n): self.mode = 'generic'
            elif isinstance(it, SymList): it = [it.elem(i) for i in range(it.n)]
            elif isinstance(it, range) and len(it) > UNROLL: 
                it = SymRange(it.start, it.stop) if it.step == 1 else it
                self.mode = 'generic' if isinstance(it, SymList) else 'native'
            elif hasattr(it, '_loop_source'):
                self.mode = 'source'
            self.it = it
            if self.mode == 'native': self.iter = iter(it)

    # -- head of every iteration
    def head(self, carried):
        carried = {k: v for k, v in carried.items() if v is not MISSING}
        c = core.CTX
        if c is None: return {}
        if self.first:
            self.first = False
            self.entry = carried
            self.spec = c.find_loop_spec(self, carried) if hasattr(c, 'find_loop_spec') else None
            if self.spec is not None:
                self.mode = 'spec'
                self.spec.on_entry(carried)
                self.branch = c.choose(2, 'loop %s' % self.loc)      # 0: arbitrary iteration, 1: after the loop
                return self.spec.havoc(carried)
            if self.mode in ('generic', 'source'):
                return self.generic_head(carried)
            if not self.is_for:
                return {}
            return {}
        if self.mode == 'spec':
            self.spec.on_iteration(carried)
            raise PathDone()
        if self.mode in ('generic', 'source'):
            # an arbitrary iteration fell through to the next one
            for k in self.mut:
                if k not in self.owned and k in self.entry and k in carried and not same_state(self.snap.get(k), carried[k]):
                    raise Unsupported('loop %s modifies %s: an invariant is needed' % (self.loc, k))
            self.hook('_fell', carried)
            raise PathDone()
        self.iter_count += 1
        return {}

    def generic_head(self, carried):
        """No invariant given: one arbitrary iteration with unknown carried values."""
        c = ctx()
        self.snap = {k: state_of(v) for k, v in carried.items()}
        n = self.it.n if self.mode == 'generic' else None
        self.index = None
        endless = self.is_for and getattr(self.it, '_infinite', False)
        self.branch = 0 if endless else c.choose(2, 'loop %s' % self.loc)
        if endless:
            self.index = c.int('iter')
            c.assume(self.index >= 0)
        if self.branch == 0 and n is not None:
            self.index = self.k = c.int('iter')
            c.assume(Sym(z3.And(self.k.e >= 0, self.k.e < ie(n))))
        if self.branch == 1:
            # exhausted; if the loop may run zero times the entry values survive
            if n is not None and c.choose(2, 'zero iterations') == 0:
                c.assume(compare('<=', n, 0))
                self.zero = True
                return {}
            if n is not None:
                c.assume(compare('>', n, 0))
                self.index = n
            elif getattr(self.it, '_may_be_empty', True) and c.choose(2, 'zero iterations') == 0:
                self.hook('_exit', carried)
                return {}
        out = {}
        c.loop = self
        for h in getattr(c, 'loop_hooks', []): h(self, carried)
        for k, v in carried.items():
            r = NotImplemented
            for h in [getattr(self.it if self.is_for else None, '_havoc', None)] + list(c.havoc_hooks):
                if h is not None and r is NotImplemented: r = h(k, v)
            if k in self.mut:       # modified in place: kept, unless an invariant says what it becomes
                if r is NotImplemented or r is v: continue
                self.owned.add(k)
                out[k] = r
            else: out[k] = Poison(k) if r is NotImplemented else r
        if self.branch == 1: self.hook('_exit', out)
        return out

    def hook(self, what, carried):
        f = getattr(self.it if self.is_for else None, what, None)
        if f is not None: f(carried)
        if what == '_fell':
            for g in ctx().fall_hooks: g(self, carried)

    def more(self):
        if self.mode == 'native':
            try:
                self.cur = next(self.iter)
                return True
            except StopIteration:
                return False
        if self.mode == 'spec':
            if self.branch == 0:
                self.cur = self.spec.item(self)
                return True
            self.spec.on_exit(self)
            return False
        if self.branch == 0:
            self.cur = self.it.elem(self.k) if self.mode == 'generic' else self.it._take(self.index) if getattr(self.it, '_infinite', False) else self.it._loop_item()
            return True
        return False

    def item(self):
        return self.cur

    def test(self, cond):
        f = cond if callable(cond) else (lambda: cond)
        if self.mode == 'spec':
            v = f()
            if self.branch == 0:
                if not truthy_assume(v): raise core.Infeasible()
                return True
            if not self.spec.exits: raise PathDone()
            truthy_assume(v, False)
            self.spec.on_exit(self)
            return False
        v = f()
        if isinstance(v, (Sym, Arr)):
            c = ctx()
            if self.iter_count >= c.unroll:
                if c.bounded:
                    c.run.truncated = True
                    raise PathDone()
                raise Unsupported('unbounded loop %s without an invariant' % self.loc)
            return bool(v)
        return bool(v)


class Source:
    """An abstract iterable: loops over it see one arbitrary element."""
    _loop_source = True

    def __init__(self, item, fell=None, exit=None, havoc=None, may_be_empty=True):
        self._loop_item = item
        if fell: self._fell = fell
        if exit: self._exit = exit
        if havoc: self._havoc = havoc
        self._may_be_empty = may_be_empty
        self.n_next = 0

    def __iter__(self): return self

    def __next__(self):
        # explicit next(): one more arbitrary element
        self.n_next += 1
        return self._loop_item()

    def _enumerate(self, start=0):
        k = [None]
        def item():
            i = ctx().int('iter'); ctx().assume(i >= start)
            return (i, self._loop_item())
        return Source(item, getattr(self, '_fell', None), getattr(self, '_exit', None), getattr(self, '_havoc', None), self._may_be_empty)


class Seq(Source):
    """An endless sequence at(0), at(1), ...: a loop over it sees one arbitrary element, at its place in the sequence.
    Loops over the same sequence continue where the previous one stopped."""
    _infinite = True
    _may_be_empty = False

    def __init__(self, at):
        self.at, self.pos, self.n_next = at, 0, 0

    def _take(self, k):
        p = norm_dim(self.pos + k)
        self.pos = norm_dim(p + 1)
        return self.at(p)

    def _peek_at(self, k): return self.at(norm_dim(self.pos + k))

    def _loop_item(self): return self._take(self.index if getattr(self, 'index', None) is not None else 0)
    def __next__(self): return self._take(0)
    def _enumerate(self, start=0): return SeqMap(lambda k, x: (norm_dim(k + start), x), self)


class SeqMap(Seq):
    """elements made from the elements of other sequences at the same number of steps; n counts the steps done"""
    def __init__(self, f, *srcs):
        self.f, self.srcs, self.done = f, srcs, 0

    def _take(self, k):
        d = norm_dim(self.done + k)
        self.done = norm_dim(d + 1)
        return self.f(d, *[s._take(k) for s in self.srcs])


def truthy_assume(v, want=True):
    if isinstance(v, Sym):
        e = v.e if v.is_bool() else v.e != 0
        ctx().assume(Sym(e if want else z3.Not(e), v.bad))
        return True
    if isinstance(v, Arr): return truthy_assume(v.item(), want)
    if bool(v) != want: raise core.Infeasible()
    return True


def state_of(v):
    if isinstance(v, list): return ('list', list(v))
    if isinstance(v, Arr): return ('arr', v.root().snapstate(), v)
    if isinstance(v, SymList): return ('sl', v.n, v.elem_)
    return ('o', v)


def same_state(s, v):
    if s is None: return False
    t = state_of(v)
    if s[0] != t[0]: return False
    if s[0] == 'list': return len(s[1]) == len(t[1]) and all(x is y for x, y in zip(s[1], t[1]))
    if s[0] == 'arr': return s[2] is t[2] and s[1][1] is t[1][1] and s[1][0] == t[1][0]
    if s[0] == 'sl': return s[2] is t[2]
    return s[1] is t[1]


def h_loop(loc, it, is_for, mut): return Loop(loc, it, is_for, eval(mut))


def sym_iterable(x):
    if isinstance(x, SymList) and not dim_is_int(x.n): return x
    if isinstance(x, Arr) and x.ndim and not dim_is_int(x._shape[0]): return SymList.of_arr(x)
    return None


class Template:
    """Value of a comprehension body at a placeholder index; at(k) substitutes."""
    def __init__(self, K, guards, value, n):
        self.K, self.guards, self.value, self.n = K, guards, value, n

    def at(self, k):
        k = k if isinstance(k, z3.ExprRef) else ie(k)
        return self.inst(self.value, k)

    def inst(self, v, k):
        pairs = [(self.K, k)]
        if isinstance(v, Sym): return M.subst(v, pairs)
        if isinstance(v, Arr):
            g = v.snap()
            sh = tuple(d if dim_is_int(d) else norm_dim(M.subst(d, pairs)) for d in v._shape)
            return Arr(sh, lambda ix: self.under(lambda jx: g(jx), ix, pairs), v._dt)
        if isinstance(v, tuple):
            vals = [self.inst(x, k) for x in v]
            return type(v)(*vals) if hasattr(v, '_fields') else tuple(vals)
        if isinstance(v, list): return [self.inst(x, k) for x in v]
        if isinstance(v, SymList):
            n = v.n if dim_is_int(v.n) else norm_dim(M.subst(v.n, pairs))
            return SymList(n, lambda j: self.under1(v, j, pairs))
        return M.subst(v, pairs)

    def under(self, g, ix, pairs):
        c = ctx()
        tmp, back = [], []
        for i in ix:
            if type(i) is int: tmp.append(i)
            else:
                t = z3.Int('prot!%d!%d' % (len(back), len(c.generic_stack)))
                tmp.append(Sym(t)); back.append((t, i.e))
        c.generic_stack.append((self.K, self.guards))
        try:
            v = g(tuple(tmp))
        finally:
            c.generic_stack.pop()
        v = M.subst(v, pairs)
        return M.subst(v, back) if back else v

    def under1(self, sl, j, pairs):
        c = ctx()
        c.generic_stack.append((self.K, self.guards))
        try:
            if type(j) is int: v, back = sl.elem(j), []
            else:
                t = z3.Int('protl!%d' % len(c.generic_stack))
                v, back = sl.elem(t), [(t, j.e)]
        finally:
            c.generic_stack.pop()
        v = self.inst(v, pairs[0][1])
        return M.subst(v, back) if back else v


def comp(kind, it, f, cond=None):
    if kind.startswith('flat'):
        r = comp('list', it, f, cond)
        if isinstance(r, SymList): raise Unsupported('nested comprehension over a symbolic length')
        return [y for x in r for y in x]
    s = sym_iterable(it)
    if s is None and isinstance(it, range) and len(it) > 512 and core.CTX is not None: s = SymRange(it.start, it.stop)
    if s is None:
        if isinstance(it, SymList): it = [it.elem(i) for i in range(it.n)]
        if hasattr(it, '_loop_source'): raise Unsupported('comprehension over a generated source')
        if kind == 'gen' and not isinstance(it, (list, tuple, Arr, range, zip)):
            return (f(x) for x in it if cond is None or bool(cond(x)))
        return [f(x) for x in it if cond is None or bool(cond(x))]
    c = ctx()
    n = s.n
    depth = len(c.generic_stack)
    if cond is not None:
        # filtered comprehension: select through the mask
        m = comp('list', s, cond)
        o = M.compress_info(asarr(m).astype(bool) if asarr(m).kind() != 'b' else asarr(m))
        s = SymList(o.count, (lambda s0: (lambda k: s0.elem(o.sel(k))))(s))
        n = s.n
    key = 'K%d' % depth
    K = z3.Int(c.name('gen'))
    guards = [K >= 0, K < ie(n)]
    if any(core_contains(g, p) for g in guards for p in []): pass
    mark = len(c.draws)
    c.generic_stack.append((K, guards))
    try:
        try:
            v = f(s.elem(Sym(K)))
        finally:
            c.generic_stack.pop()
    except GenericFork:
        if depth or len(c.draws) != mark: raise
        r = SymList(n, lambda k: f(s.elem(k)))
        r.anew = True
        return r
    if isinstance(v, world.Delayed) or (len(c.draws) == mark and has_closure(v)):
        return SymList(n, lambda k: f(s.elem(k)))
    t = Template(K, guards, v, n)
    r = SymList(n, t.at)
    r.template = t
    return r


def has_closure(v):
    """functions capture the index in places substitution does not reach"""
    if isinstance(v, (tuple, list)): return any(has_closure(x) for x in v)
    return callable(v) and not isinstance(v, (Sym, Arr, SymList, type))


def core_contains(e, p): return M.contains(e, p)


def h_ifexp(test, a, b):
    if isinstance(test, Arr): test = test.item() if core.CTX is not None and core.CTX.generic_stack else bool(test)
    if isinstance(test, Sym) and core.CTX.generic_stack:
        e = test.e if test.is_bool() else test.e != 0
        if core.CTX.entails(e): return a()
        if core.CTX.entails(z3.Not(e)): return b()
        x = _under(e, a)
        return M.merge(Sym(e, test.bad), x, _under(z3.Not(e), b))
    return a() if test else b()


def _under(e, f):
    # a branch inside a generic element is only evaluated where its condition holds
    K, guards = core.CTX.generic_stack[-1]
    core.CTX.generic_stack[-1] = (K, list(guards) + [e])
    try: return f()
    finally: core.CTX.generic_stack[-1] = (K, guards)


def symbool(v):
    return isinstance(v, Sym)


def h_and(*fs):
    v = fs[0]()
    for f in fs[1:]:
        if isinstance(v, Sym) and core.CTX.generic_stack:
            w = f()
            v = core.logic('and', asb(v), asb(w))
            continue
        if not v: return v
        v = f()
    return v


def h_or(*fs):
    v = fs[0]()
    for f in fs[1:]:
        if isinstance(v, Sym) and core.CTX.generic_stack:
            w = f()
            v = core.logic('or', asb(v), asb(w))
            continue
        if v: return v
        v = f()
    return v


def asb(v):
    if isinstance(v, Sym): return v if v.is_bool() else v != 0
    if isinstance(v, Arr): return asb(v.item())
    return bool(v)


def h_not(v):
    if isinstance(v, Sym): return ~asb(v)
    if isinstance(v, Arr) and v.concrete_shape() and v.size == 1: return h_not(v.item())
    return not v


def h_in(x, coll):
    if isinstance(coll, SymList) or isinstance(coll, Arr):
        return M.np_any(asarr(coll) == x)
    if isinstance(coll, (list, tuple)) and (isinstance(x, Sym) or any(isinstance(y, Sym) for y in coll)):
        r = False
        for y in coll:
            if y is x: return True
            if y is None or isinstance(y, str): continue
            r = M.bor(r, compare('==', x, y))
        return r
    return x in coll


OPS = {'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b, 'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b,
       'Is': lambda a, b: a is b, 'IsNot': lambda a, b: a is not b, 'In': lambda a, b: h_in(a, b), 'NotIn': lambda a, b: h_not(h_in(a, b))}


def h_chain(ops, *fs):
    ops = eval(ops)
    a = fs[0]()
    r = True
    for op, f in zip(ops, fs[1:]):
        b = f()
        v = OPS[op](a, b)
        if isinstance(v, Arr) and v.ndim == 0: v = v.item_()
        if isinstance(v, Arr) and v.concrete_shape() and v.size == 1: v = v.item()
        if isinstance(v, Sym) or isinstance(r, Sym):
            r = core.logic('and', asb(r), asb(v)) if not (r is True) else v
        else:
            if not v: return v
            r = v if r is True else r
        a = b
    return r


def h_callstar(f, parts, **kw):
    if any(s and isinstance(x, SymList) and not dim_is_int(x.n) for s, x in parts):
        if f is h_zip or f is builtins.zip:
            if len(parts) == 1: return unzip(parts[0][1])
        raise Unsupported('call with a symbolic number of arguments')
    args = []
    for s, x in parts:
        if s: args.extend(x if not isinstance(x, SymList) else [x.elem(i) for i in range(x.n)])
        else: args.append(x)
    return f(*args, **kw)


def unzip(sl):
    if not bool(compare('>', sl.n, 0)): raise ValueError('not enough values to unpack')
    if not getattr(sl, 'anew', False) or ctx().generic_stack: p = sl.elem(sl.K)
    else:       # evaluated anew at every index: take an arbitrary one
        k = ctx().int('elem')
        ctx().assume(Sym(z3.And(k.e >= 0, k.e < ie(sl.n))))
        p = sl.elem(k)
    if not isinstance(p, (tuple, list)): raise Unsupported('zip(*...) of a symbolic list')
    out = tuple(SymList(sl.n, (lambda j: (lambda k: sl.elem(k)[j]))(j)) for j in range(len(p)))
    for o in out: o.anew = getattr(sl, 'anew', False)
    return out


def h_display(is_tuple, parts):
    r = []
    for s, x in parts:
        if not s:
            if isinstance(r, SymList): r = r + [x]
            else: r.append(x)
            continue
        y = sym_iterable(x)
        if y is not None:
            r = M.symlist_cat(r, y)
        else:
            ys = [x.elem(i) for i in range(x.n)] if isinstance(x, SymList) else list(x)
            r = r + ys
    if is_tuple and isinstance(r, list): return tuple(r)
    return r


def h_getitem(o, i):
    if isinstance(o, (list, tuple)) and not isinstance(i, (int, slice)):
        if isinstance(i, Arr): i = i.item()
        if isinstance(i, Sym):
            j = M.as_index(i)
            if type(j) is int: return o[j]
            if core.CTX.generic_stack:
                return M.pick_any(list(o), M.norm_scalar_index(j, len(o)))
            return o[concretise(j, len(o))]
    return o[i]


def concretise(j, n):
    for v in range(n):
        if bool(compare('==', j, v)): return v
    for v in range(1, n + 1):
        if bool(compare('==', j, -v)): return -v
    raise IndexError('list index out of range')


def h_idx(o, i):
    if isinstance(o, list) and isinstance(i, (Sym, Arr)):
        if isinstance(i, Arr): i = i.item()
        j = M.as_index(i)
        return j if type(j) is int else concretise(j, len(o))
    return i


def h_getslice(o, a, b, s):
    if isinstance(o, (list, tuple)) and any(isinstance(x, Sym) for x in (a, b)):
        sl = SymList(len(o), lambda k: M.pick_any(list(o), k))
        vals = []
        st, ln, _ = M.slice_bounds(slice(a, b, s), len(o))
        st = st if type(st) is int else concretise(st, len(o) + 1)
        ln = ln if type(ln) is int else concretise(ln, len(o) + 1)
        return o[st:st + ln]
    return o[slice(a, b, s)]


# ---------------------------------------------------------------- shimmed builtins
def h_len(x):
    if isinstance(x, Arr):
        if not x._shape: raise TypeError('len() of unsized object')
        return x._shape[0]
    if isinstance(x, SymList): return x.n
    return len(x)


def h_range(*a):
    a = [M.as_index(x) if isinstance(x, (Sym, Fraction)) or M.is_num(x) and not isinstance(x, int) else x for x in a]
    if all(type(x) is int for x in a): return range(*a)
    if len(a) == 1: return SymRange(0, a[0])
    if len(a) == 2: return SymRange(*a)
    raise Unsupported('range with a symbolic step')


def h_zip(*its, **kw):
    ss = [sym_iterable(i) for i in its]
    if any(s is not None for s in ss):
        fin = []
        for i, s in zip(its, ss):
            if s is not None: fin.append((s.n, s.elem))
            elif isinstance(i, SymList): fin.append((i.n, i.elem))
            elif isinstance(i, (list, tuple)): fin.append((len(i), (lambda l: (lambda k: M.pick_any(l, k)))(list(i))))
            elif isinstance(i, Arr): fin.append((i._shape[0], (lambda l: (lambda k: l[k] if l.ndim > 1 else l.get((k,))))(i.copy())))
            elif isinstance(i, range): fin.append((len(i), (lambda l: (lambda k: norm_dim(k + l.start)))(i)))
            elif isinstance(i, Seq): fin.append((None, i._peek_at))
            elif hasattr(i, '__next__') or type(i).__name__ == 'repeat':
                if type(i).__name__ == 'count':
                    st = next(i)
                    fin.append((None, (lambda s0: (lambda k: norm_dim(k + s0)))(st)))
                elif type(i).__name__ == 'repeat':
                    v = next(i); fin.append((None, (lambda v: (lambda k: v))(v)))
                else: raise Unsupported('zip of a generator with a symbolic list')
            else: raise Unsupported('zip of %s' % type(i))
        n = None
        for m, _ in fin:
            if m is None: continue
            if n is None: n = m
            elif M.dim_is_int(n) and M.dim_is_int(m): n = min(n, m)
            else:
                r = compare('==', n, m)
                if r is True or (not isinstance(r, bool) and ctx().entails(r.e)): 
                    n = n if not dim_is_int(n) else n
                elif M.known_ge(n, m): n = m
                elif M.known_ge(m, n): pass
                else: n = norm_dim(core.smin2(n, m))
        return SymList(n, lambda k: tuple(f(k) for _, f in fin))
    its = [[i.elem(j) for j in range(i.n)] if isinstance(i, SymList) else i for i in its]
    if its and all(isinstance(i, Seq) for i in its): return SeqMap(lambda k, *xs: xs, *its)
    return zip(*its, **kw)


def h_enumerate(it, start=0):
    s = sym_iterable(it)
    if s is not None: return SymList(s.n, lambda k: (norm_dim(k + start) if not (type(start) is int and start == 0) else k, s.elem(k)))
    if hasattr(it, '_loop_source'): return it._enumerate(start)
    if isinstance(it, SymList): it = [it.elem(j) for j in range(it.n)]
    return enumerate(it, start)


def h_minmax(sgn):
    def f(*a, **kw):
        if 'default' in kw and not kw['default']: pass
        if len(a) == 1:
            x = a[0]
            s = sym_iterable(x)
            if s is not None: return M.extremum(s.to_arr(), sgn)
            if isinstance(x, Arr): x = [x[i] for i in range(x._shape[0])]
            a = list(x)
            if not a and 'default' in kw: return kw['default']
            if not a: raise ValueError('arg is an empty sequence')
        if kw.get('key') is not None:
            if any(isinstance(kw['key'](x), Sym) for x in a): raise Unsupported('min/max with a key')
            return (builtins.min if sgn < 0 else builtins.max)(a, key=kw['key'])
        a = [M.numify(x.item() if isinstance(x, Arr) else x) for x in a]
        r = a[0]
        for x in a[1:]: r = core.smin2(r, x) if sgn < 0 else core.smax2(r, x)
        return r
    return f


def h_sum(x, start=0):
    s = sym_iterable(x)
    if s is not None:
        a = s.to_arr()
        r = M.np_sum(a, 0)
        return r if (type(start) is int and start == 0) else start + r
    if isinstance(x, SymList): x = [x.elem(j) for j in range(x.n)]
    r = start
    for y in x:
        y = M.numify(y)
        r = r + (int(y) if isinstance(y, bool) else y)
    return r


def h_all(x):
    s = sym_iterable(x)
    if s is not None: return M.quant(s.to_arr(), True)
    r = True
    for y in x:
        if isinstance(y, Arr): y = y.item()
        if isinstance(y, Sym):
            r = M.band(r, asb(y))
        elif not y: return False
    return r


def h_any(x):
    s = sym_iterable(x)
    if s is not None: return M.quant(s.to_arr(), False)
    r = False
    for y in x:
        if isinstance(y, Arr): y = y.item()
        if isinstance(y, Sym):
            r = M.bor(r, asb(y))
        elif y: return True
    return r


def h_abs(x): return core.sabs(x) if isinstance(x, Sym) else abs(x)


def h_sorted(x, **k):
    s = sym_iterable(x)
    if s is not None: return SymList.of_arr(M.sort(s.to_arr()))
    x = list(x)
    if any(isinstance(y, Sym) for y in x):
        if k: raise Unsupported('sorted with options')
        return M.sort(Arr.from_list(x)).cells()
    return sorted(x, **k)


def h_reversed(x):
    s = sym_iterable(x)
    if s is not None: return SymList(s.n, lambda k: s.elem(norm_dim(s.n - 1 - k)))
    if isinstance(x, Arr): x = [x[i] for i in range(x._shape[0])]
    return reversed(x)


def h_map(f, *its):
    if any(sym_iterable(i) is not None for i in its): return comp('list', h_zip(*its), lambda t: f(*t))
    return map(f, *its)


def h_filter(f, it):
    if sym_iterable(it) is not None: return comp('list', it, lambda x: x, f)
    return filter(lambda x: bool(f(x)), it)


def h_set(x): return set(x)
def h_dict(x): return dict(x)


def h_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(SHIM.get(id(u), u) for u in ts)
    for u in ts:
        if isinstance(x, Sym):
            if u is int and (x.is_int() or x.is_bool()): return True
            if u is float and z3.is_real(x.e): return True
            if u is bool and x.is_bool(): return True
        if isinstance(x, SymList) and u is list: return True
        if isinstance(x, Fraction) and u is float: return True
        try:
            if isinstance(u, type) and isinstance(x, u): return True
        except TypeError:
            pass
    try:
        return isinstance(x, tuple(u for u in ts if isinstance(u, type)))
    except TypeError:
        return False


class IntShim(type):
    def __instancecheck__(cls, x): return h_isinstance(x, int)


class h_int(metaclass=IntShim):
    def __new__(cls, x=0, *a):
        if isinstance(x, Arr): x = x.item()
        if isinstance(x, Sym): return norm_dim(M.conv_scalar(x, 'i'))
        return int(x, *a) if a else int(x)


class h_float(metaclass=type('FloatShim', (type,), {'__instancecheck__': lambda cls, x: h_isinstance(x, float)})):
    def __new__(cls, x=0.0):
        if isinstance(x, Arr): x = x.item()
        if isinstance(x, Sym): return M.conv_scalar(x, 'f')
        if isinstance(x, Fraction): return x
        return float(x)


class h_bool(metaclass=type('BoolShim', (type,), {'__instancecheck__': lambda cls, x: h_isinstance(x, bool)})):
    def __new__(cls, x=False):
        if isinstance(x, Arr): x = x.item()
        if isinstance(x, Sym): return asb(x)
        return bool(x)


class h_list(metaclass=type('ListShim', (type,), {'__instancecheck__': lambda cls, x: h_isinstance(x, list)})):
    def __new__(cls, x=()):
        s = sym_iterable(x)
        if s is not None: return SymList(s.n, s.elem_) if not hasattr(s, 'template') else s
        if isinstance(x, SymList): return [x.elem(i) for i in range(x.n)]
        return list(x)


class h_tuple(metaclass=type('TupleShim', (type,), {'__instancecheck__': lambda cls, x: isinstance(x, tuple)})):
    def __new__(cls, x=()):
        s = sym_iterable(x)
        if s is not None: return s
        if isinstance(x, SymList): return tuple(x.elem(i) for i in range(x.n))
        return tuple(x)


SHIM = {id(h_int): int, id(h_float): float, id(h_bool): bool, id(h_list): list, id(h_tuple): tuple}


def h_next(it, *d):
    if hasattr(it, '_next'): return it._next()
    return next(it, *d)


def h_iter(x):
    if hasattr(x, '_next') or sym_iterable(x) is not None: return x
    return iter(x)


def h_round(x, n=None):
    if isinstance(x, Sym): raise Unsupported('round')
    return round(x, n) if n is not None else round(x)


def h_pow(a, b): return core.spow(a, b)


# ---------------------------------------------------------------- loading
def h_import(name_, globals_=None, locals_=None, fromlist=(), level=0):
    if level:
        pkg = globals_.get('__package__') or globals_['__name__'].rpartition('.')[0]
        for _ in range(level - 1): pkg = pkg.rpartition('.')[0]
        name_ = pkg + ('.' + name_ if name_ else '')
    if name_ in WORLD:
        if fromlist or '.' not in name_: return WORLD[name_]
        return WORLD[name_.split('.')[0]]
    if name_ == ROOTPKG or name_.startswith(ROOTPKG + '.'):
        m = load(name_)
        for f in fromlist or ():
            if not hasattr(m, f) and f != '*':
                sub = name_ + '.' + f
                if find(sub): setattr(m, f, load(sub))
        if fromlist: return m
        return load(ROOTPKG)
    if name_.split('.')[0] in THIRD: third_party(name_.split('.')[0])
    return builtins.__import__(name_, globals_, locals_, fromlist, 0)


# pure-Python dependency executed as it is (the real library, from the interpreter that runs the code)
THIRD = {'toolz', 'tlz'}


def third_party(n):
    if n in sys.modules: return
    import glob
    for d in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
        if os.path.isdir(os.path.join(d, n)):
            sys.path.insert(0, d)
            try: builtins.__import__(n)
            finally: sys.path.remove(d)
            return


BUILTINS = dict(vars(builtins))
BUILTINS.update(__import__=h_import, len=h_len, range=h_range, zip=h_zip, enumerate=h_enumerate, min=h_minmax(-1), max=h_minmax(1), sum=h_sum, all=h_all, any=h_any,
                abs=h_abs, sorted=h_sorted, reversed=h_reversed, map=h_map, filter=h_filter, isinstance=h_isinstance, int=h_int, float=h_float, bool=h_bool, list=h_list,
                tuple=h_tuple, next=h_next, iter=h_iter, round=h_round, pow=h_pow,
                __comp__=comp, __ifexp__=h_ifexp, __and__=h_and, __or__=h_or, __not__=h_not, __in__=h_in, __chain__=h_chain, __callstar__=h_callstar,
                __display__=h_display, __getitem__=h_getitem, __idx__=h_idx, __getslice__=h_getslice, __loop__=h_loop, __peek__=h_peek, __set__=h_set, __dict__=h_dict)


def find(name_):
    p = os.path.join(REPO, *name_.split('.'))
    if os.path.isfile(p + '.py'): return p + '.py'
    if os.path.isdir(p): return os.path.join(p, '__init__.py')
    return None


def load(name_):
    if name_ in MODS: return MODS[name_]
    path = find(name_)
    if path is None: raise ModuleNotFoundError(name_)
    m = types.ModuleType(name_)
    m.__file__ = path
    ispkg = path.endswith('__init__.py')
    m.__package__ = name_ if ispkg else name_.rpartition('.')[0]
    if ispkg: m.__path__ = [os.path.dirname(path)]
    m.__dict__['__builtins__'] = BUILTINS
    MODS[name_] = m
    parent, _, leaf = name_.rpartition('.')
    if parent:
        setattr(load(parent), leaf, m)
    if os.path.isfile(path):
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = T().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        saved, core.CTX = core.CTX, None
        try:
            exec(code, m.__dict__)
        finally:
            core.CTX = saved
    return m


ALL = []


def load_all(root='ctbayes'):
    """loads every module of the package (failures are met again by whoever needs the module)"""
    if root in ALL: return
    ALL.append(root)
    top = find(root)
    if top is None: return
    d = os.path.dirname(top) if not os.path.isdir(top) else top
    for p, _, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            nm = root + os.path.relpath(os.path.join(p, f), d).join(['/', '']).replace('/', '.')[:-3]
            if nm.endswith('.__init__'): nm = nm[:-9]
            before = set(MODS)
            try: load(nm)
            except Exception:
                for k in set(MODS) - before: del MODS[k]
