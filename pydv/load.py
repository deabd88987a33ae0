"""Loads the real source of a repository module for symbolic execution.

The file is read from /repo at every run, parsed, and compiled with these rewritings only (everything else is the code that
runs):  for-loops and single-generator comprehensions go through __pydv__ (so that iteration over a sequence of symbolic
length can be cut at an invariant); numpy/pandas/builtins are the engine's proxies; `print`, plotting and progress bars do
nothing.
"""
import ast, builtins, hashlib, importlib, os, sys, types
import numpy as np
import z3
import sym, arr
from sym import S, Unsupported, PathEnd, lift, ctx
from arr import Arr, norm, needs_sym

REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------- sequences of symbolic length
class Seq:
    """fn(i) for 0 <= i < n"""
    __pydv_sym__ = True

    def __init__(self, n, fn, pure=True):
        self.n, self.fn = norm(n), fn

    def __pydv_len__(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            d = getattr(self, 'head', None)
            if d and isinstance(i.start, int) and i.start == d[0] and i.stop is None and i.step is None and norm(d[2]) is self.n:
                return d[1]
            st, ln, step = arr.norm_slice(i, self.n)
            return Seq(ln, lambda k: self.fn(norm(lift(k) * step + st)))
        return self.fn(arr.norm_int(i, self.n))

    def __iter__(self):
        n = self.n
        if isinstance(n, S):
            v = sym.implied_int(n)
            if v is None:
                raise Unsupported('plain iteration over a sequence of symbolic length')
            n = v
        return iter([self.fn(i) for i in range(n)])

    def __pydv_list__(self):
        return list(self)

    def __pydv_array__(self):
        if isinstance(self.n, int):
            return arr.stack([arr.as_arr(self.fn(i)) for i in range(self.n)], 0)
        e = arr.as_arr(self.fn(S(sym.fresh(z3.IntSort(), 'p'))))
        f = self.fn
        return Arr((self.n,) + e.shape, lambda i, *r: arr.as_arr(f(i)).read(*r), e.kind)

    def __len__(self):
        return norm(self.n).__index__()

    def __bool__(self):
        return bool(lift(self.n) > 0)

    def copy(self):
        return type(self)(self.n, self.fn)

    def __add__(self, o):
        o = to_seq(o)
        n = self.n
        a, b = self.fn, o.fn
        r = SList(norm(lift(n) + o.n), lambda i: pick(lift(i) < n, lambda: a(i), lambda: b(norm(lift(i) - n))))
        if isinstance(n, int):
            # what follows the first n elements, as long as the list keeps its length
            r.head = n, Seq(o.n, b), r.n
        return r

    def __radd__(self, o):
        return to_seq(o) + self


def pick(c, a, b):
    c = z3.simplify(sym.boolterm(c))
    if z3.is_true(c):
        return a()
    if z3.is_false(c):
        return b()
    return merge(S(c), a(), b())


def merge(c, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, (np.ndarray, list)) or isinstance(b, (np.ndarray, list)):
        a, b = arr.as_arr(a), arr.as_arr(b)
        sh = []
        for x, y in zip(a.shape, b.shape):
            x, y = norm(x), norm(y)
            sh.append(x if (x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or (isinstance(x, S) and isinstance(y, S) and x.t.eq(y.t))) else sym.ite(c, x, y))
        if a.ndim != b.ndim:
            raise Unsupported('a choice between arrays of different dimension')
        sa, sb = a.snapshot(), b.snapshot()
        return Arr(sh, lambda *i: sym.ite(c, sa(*i), sb(*i)), a.kind)
    if a is b:
        return a
    return sym.ite(c, a, b)


class SList(Seq):
    def append(self, v):
        n, old = self.n, self.fn
        self.fn = lambda i: pick(lift(i) < n, lambda: old(i), lambda: v)
        self.n = norm(lift(n) + 1)


def to_seq(o):
    if isinstance(o, Seq):
        return o
    l = list(o)
    return Seq(len(l), lambda i: arr.chain_s(l)(i) if not any(isinstance(v, (Arr, tuple, list, np.ndarray)) for v in l) else _chain_m(l, i))


def _chain_m(l, i):
    i = norm(i)
    if isinstance(i, int):
        return l[i]
    r = l[-1]
    for k in range(len(l) - 2, -1, -1):
        r = merge(i == k, l[k], r)
    return r


def srange(*a):
    a = [norm(x.scalar() if isinstance(x, Arr) else x) for x in a]
    if not any(isinstance(x, S) for x in a):
        return range(*[x.__index__() if not isinstance(x, int) else x for x in a])
    st, sp, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(step, S):
        step = step.__index__()
    d = lift(sp) - st
    if step < 0:
        d = -d
    n = arr.smax(d if abs(step) == 1 else (d + (abs(step) - 1)) // abs(step), 0)
    n = norm(n)
    if isinstance(n, int) and not isinstance(st, S):
        return range(st, st + n * step, step)
    return Seq(n, lambda i: norm(lift(i) * step + st))


def symbolic_iter(it):
    if isinstance(it, Seq):
        return it if isinstance(norm(it.n), S) else None
    if isinstance(it, Arr):
        if it.ndim and isinstance(it.shape[0], S):
            return Seq(it.shape[0], lambda i: arr.member(it, i))
        return None
    if hasattr(it, '__pydv_iter__'):
        s = it.__pydv_iter__()
        return s if isinstance(s, Seq) and isinstance(norm(s.n), S) else None
    return None


# ---------------------------------------------------------------- builtins
def b_len(x):
    if hasattr(x, '__pydv_len__'):
        return x.__pydv_len__()
    return builtins.len(x)


def b_enumerate(it, start=0):
    s = symbolic_iter(it)
    if s is not None:
        return Seq(s.n, lambda i: (norm(lift(i) + start), s.fn(i)))
    return builtins.enumerate(it, start)


def b_zip(*its):
    ss = [symbolic_iter(i) for i in its]
    if any(s is not None for s in ss):
        ss = [s if s is not None else to_seq(i) for s, i in builtins.zip(ss, its)]
        n = ss[0].n
        for s in ss[1:]:
            n = arr.smin(n, s.n)
        return Seq(n, lambda i: tuple(s.fn(i) for s in ss))
    return builtins.zip(*its)


def b_int(x=0, *a):
    if isinstance(x, Arr):
        x = x.item()
    return norm(sym.trunc_int(x)) if isinstance(x, S) else builtins.int(x, *a)


def b_float(x=0.):
    if isinstance(x, Arr):
        x = x.item()
    return arr.cast(x, 'f') if isinstance(x, S) else builtins.float(x)


def b_bool(x=False):
    return S(sym.truth(x)) if isinstance(x, S) else builtins.bool(x)


def b_abs(x):
    return builtins.abs(x)


def _mm(name):
    def f(*a, **k):
        l = a[0] if len(a) == 1 else a
        s = symbolic_iter(l)
        if s is not None:
            return arr.reduce_1(name, s.n, s.fn)
        l = list(l)
        if any(isinstance(v, S) for v in l) and not k:
            r = l[0]
            for v in l[1:]:
                r = arr.smax(r, v) if name == 'max' else arr.smin(r, v)
            return r
        return getattr(builtins, name)(l, **k)
    return f


def b_sum(l, start=0):
    s = symbolic_iter(l)
    if s is not None:
        return arr.reduce_1('sum', s.n, s.fn) + start
    r = start
    for v in l:
        r = r + v
    return r


def b_any(l):
    s = symbolic_iter(l)
    if s is not None:
        return arr.quant('any', s.n, lambda j: S(sym.truth(s.fn(j))))
    return builtins.any(bool(v) for v in l)


def b_all(l):
    s = symbolic_iter(l)
    if s is not None:
        return arr.quant('all', s.n, lambda j: S(sym.truth(s.fn(j))))
    return builtins.all(bool(v) for v in l)


def b_list(x=()):
    s = symbolic_iter(x)
    if s is not None:
        return SList(s.n, s.fn)
    return builtins.list(x)


def b_tuple(x=()):
    s = symbolic_iter(x)
    return s if s is not None else builtins.tuple(x)


def b_sorted(x, **k):
    s = symbolic_iter(x)
    if s is not None:
        raise Unsupported('sorted symbolic sequence')
    return builtins.sorted(x, **k)


def b_print(*a, **k):
    pass


def b_set(x=()):
    if isinstance(x, arr.SymSet):
        return x
    if hasattr(x, '__pydv_array__') or symbolic_iter(x) is not None or (isinstance(x, np.ndarray) and x.dtype.kind == 'O' and any(isinstance(v, S) for v in x.ravel())):
        return arr.SymSet.of(x)
    return builtins.set(x)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or cls._sym(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, k):
        return getattr(cls._real, k)


def typelike(name, real_t, make, symf):
    return _Meta(name, (), dict(_real=real_t, _make=staticmethod(make), _sym=staticmethod(symf)))


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=b_len, range=srange, enumerate=b_enumerate, zip=b_zip, abs=b_abs, max=_mm('max'), min=_mm('min'), sum=b_sum, any=b_any, all=b_all,
                sorted=b_sorted, print=b_print,
                int=typelike('int', int, b_int, lambda x: isinstance(x, S) and z3.is_int(x.t)),
                float=typelike('float', float, b_float, lambda x: isinstance(x, S) and z3.is_real(x.t)),
                bool=typelike('bool', bool, b_bool, lambda x: isinstance(x, S) and z3.is_bool(x.t)),
                list=typelike('list', list, b_list, lambda x: isinstance(x, SList)),
                set=typelike('set', set, b_set, lambda x: isinstance(x, arr.SymSet)),
                tuple=typelike('tuple', tuple, b_tuple, lambda x: False))


# ---------------------------------------------------------------- loops
class Loop:
    """a loop over a symbolic sequence, cut at an invariant given by the contract"""
    def __init__(self, where, seq, entry, spec):
        self.where, self.seq, self.n, self.entry, self.spec = where, seq, seq.n, entry, spec
        self.i = None

    def choose_iteration(self):
        C = ctx()
        if self.spec is None:
            raise Unsupported('loop over a symbolic sequence without an invariant: %s' % (self.where,))
        for name, goal in self.spec.check(self, 0, dict(self.entry)):
            H().ensure('%s: holds on entry (%s)' % (self.spec.name, name), goal, loop=True)
        k = C.choose(2)
        if k == 0:
            self.i = sym.sint('it', 0)
            C.assume((self.i < self.n).t)
            return True
        self.i = self.n
        return False

    def havoc(self, cur):
        """values of the modified variables at the start of iteration i"""
        d = self.spec.values(self, self.i)
        out = []
        for k in self.names:
            if k in d:
                out.append(d[k])
            elif k in cur:
                if k in self.spec.local or k in self.assigned_first:
                    out.append(UNBOUND)
                else:
                    raise Unsupported('no invariant for the variable %s changed by a loop' % k)
            else:
                out.append(UNBOUND)
        return out

    def elem(self):
        return self.seq.fn(self.i)

    def step(self, cur):
        cur = {k: v for k, v in cur.items()}
        for name, goal in self.spec.check(self, self.i + 1, cur):
            H().ensure('%s: preserved (%s)' % (self.spec.name, name), goal, loop=True)
        raise PathEnd()


class WhileLoop(Loop):
    """a while-loop: after any number of iterations the invariant holds (partial correctness, unless the contract checks a variant)"""
    def __init__(self, where, entry, spec):
        self.where, self.seq, self.n, self.entry, self.spec = where, None, None, entry, spec
        self.i = None

    def choose_iteration(self):
        C = ctx()
        for name, goal in self.spec.check(self, 0, dict(self.entry)):
            H().ensure('%s: holds on entry (%s)' % (self.spec.name, name), goal, loop=True)
        self.i = sym.sint('it', 0)
        return C.choose(2) == 0

    def dead(self):
        raise PathEnd()


class LoopSpec:
    """values(L, i) -> {variable: value at the start of iteration i}; equality of each is the invariant"""
    def __init__(self, name, values, local=(), eq=None):
        self.name, self.values, self.local, self._eq = name, values, set(local), eq

    def wanted(self, loc):
        return True

    def check(self, L, i, cur):
        goals = []
        for k, v in self.values(L, i).items():
            if k not in cur:
                raise Unsupported('the loop invariant speaks about %s, which the code does not have' % k)
            goals.append((k, same_value(cur[k], v)))
        return goals


def same_value(a, b):
    if isinstance(b, Seq):
        a = to_seq(a)
        if norm(a.n) == 0 and isinstance(norm(a.n), int):
            return sym.same(b.n, 0)
        i = sym.fresh(z3.IntSort(), 'e')
        x, y = a.fn(S(i)), b.fn(S(i))
        return sym.And(lift(a.n) == b.n, S(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sym.numterm(b.n)), sym.boolterm(same_value(x, y))))))
    if isinstance(b, (Arr, np.ndarray)):
        return arr.equal_arrays(a, b)
    if isinstance(b, tuple):
        return sym.And(*[same_value(x, y) for x, y in zip(a, b)])
    return sym.same(a, b)


class _Unbound:
    def __repr__(self):
        return '<unbound>'

    def __getattr__(self, k):
        raise Unsupported('a variable that an earlier iteration may have left unset is used')


UNBOUND = _Unbound()
_H = [None]


def H():
    return _H[0]


class Runtime:
    """what instrumented code calls"""
    def __init__(self, modname):
        self.mod = modname

    def loop(self, where, it):
        return symbolic_iter(it)

    def start(self, where, seq, names, assigned_first, loc):
        h = H()
        entry = {k: loc[k] for k in names if k in loc}
        entry_all = dict(loc)
        L = Loop((self.mod,) + where, seq, entry, h.loop_spec(self.mod, where))
        L.names, L.assigned_first, L.all = names, set(assigned_first), entry_all
        return L

    def wloop(self, where, names, loc):
        h = H()
        spec = h.loop_spec(self.mod, where) if h is not None else None
        if spec is None or not spec.wanted(loc):
            return None
        L = WhileLoop((self.mod,) + where, {k: loc[k] for k in names if k in loc}, spec)
        L.names, L.assigned_first, L.all = names, set(), dict(loc)
        return L

    def comp(self, kind, f, it, cond=None):
        s = symbolic_iter(it)
        if s is None:
            src = it
            if kind == 'gen':
                return (f(x) for x in src if cond is None or cond(x))
            l = [f(x) for x in src if cond is None or cond(x)]
            return l if kind == 'list' else set(l) if kind == 'set' else dict(l)
        if cond is not None:
            n = s.n
            cond = sym.freeze(cond)
            mask = Arr((n,), lambda i: S(sym.truth(cond(s.fn(i)))), 'b')
            cnt, pos = arr.sel_map(mask, n)
            f = sym.freeze(f)
            r = SList(cnt, lambda k: f(s.fn(pos(k))))
        else:
            f = sym.freeze(f)
            r = SList(s.n, lambda i: f(s.fn(i)))
        if kind in ('list', 'gen'):
            return r
        if kind == 'dict':
            return SDict(r)
        raise Unsupported('a set over a symbolic sequence')

    def fstr(self, *parts):
        if any(isinstance(p, S) or needs_sym(p) for p in parts):
            return OpaqueText()
        return ''.join(p if isinstance(p, str) else str(p) for p in parts)

    def sformat(self, s, *a, **k):
        if any(isinstance(v, S) or needs_sym(v) for v in list(a) + list(k.values())):
            return OpaqueText()
        return s.format(*a, **k)

    def fmt(self, v, conv, spec):
        if isinstance(v, S) or needs_sym(v):
            return v
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        return format(v, spec)


class OpaqueText:
    """a message holding symbolic values: may be logged or raised, nothing else"""
    def __str__(self): return '<text of symbolic values>'
    __repr__ = __str__

    def __getattr__(self, k):
        raise Unsupported('text of symbolic values is used (%s)' % k)

    def _no(self, *a):
        raise Unsupported('text of symbolic values is used')
    __eq__ = __ne__ = __hash__ = __add__ = __radd__ = __lt__ = __gt__ = __len__ = __contains__ = __iter__ = __getitem__ = __bool__ = _no


class SDict:
    """{key(i): value(i)} over a symbolic sequence with pairwise different keys"""
    __pydv_sym__ = True

    def __init__(self, seq):
        self.seq = seq

    def __pydv_len__(self):
        return self.seq.n

    def items(self):
        return self.seq

    def values(self):
        return Seq(self.seq.n, lambda i: self.seq.fn(i)[1])

    def keys(self):
        return Seq(self.seq.n, lambda i: self.seq.fn(i)[0])


# ---------------------------------------------------------------- source transformation
def targets(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
    return out


def simple_target(t):
    return isinstance(t, ast.Name) or (isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in t.elts))


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.qual = []
        self.count = [0]
        self.ret = 0
        self.wcount = {}

    def visit_FunctionDef(self, node):
        self.qual.append(node.name)
        self.count.append(0)
        node.decorator_list = [d for d in node.decorator_list]
        self.generic_visit(node)
        self.qual.pop()
        self.count.pop()
        return node

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.count.append(0)
        self.generic_visit(node)
        self.qual.pop()
        self.count.pop()
        return node

    def visit_For(self, node):
        k = self.count[-1]
        self.count[-1] += 1
        mod = self.modified(node)
        first = self.assigned_first(node)
        self.generic_visit(node)
        where = ast.Tuple([ast.Constant('.'.join(self.qual)), ast.Constant(k)], ast.Load())
        it, sq, lp = '__it%d_%d' % (len(self.qual), k), '__sq%d_%d' % (len(self.qual), k), '__lp%d_%d' % (len(self.qual), k)
        names = sorted(mod)
        src = '''
{it} = None
{sq} = __pydv__.loop(WHERE, {it})
if {sq} is None:
    for T in {it}:
        pass
else:
    {lp} = __pydv__.start(WHERE, {sq}, {names}, {first}, dict(locals()))
    if {lp}.choose_iteration():
        HAVOC
        T = {lp}.elem()
        for __once in (0,):
            pass
        else:
            {lp}.step(dict(locals()))
    else:
        HAVOC
'''.format(it=it, sq=sq, lp=lp, names=repr(names), first=repr(sorted(first)))
        hav = 'pass' if not names else '(%s,) = %s.havoc(dict(locals()))' % (', '.join(names), lp)
        src = src.replace('HAVOC', hav).replace('WHERE', '(%r, %d)' % ('.'.join(self.qual), k))
        m = ast.parse(src).body
        for s in m:
            for n in ast.walk(s):
                if hasattr(n, 'lineno'):
                    n.lineno = n.end_lineno = node.lineno
                    n.col_offset = n.end_col_offset = 0
        m[0].value = node.iter
        plain = m[2].body[0]
        plain.target, plain.body, plain.orelse = node.target, node.body, node.orelse
        plain.iter = ast.Name(it, ast.Load())
        arm = m[2].orelse[1].body
        asg = next(s for s in arm if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == 'T')
        asg.targets = [node.target]
        once = next(s for s in arm if isinstance(s, ast.For))
        import copy
        once.body = copy.deepcopy(node.body)
        if node.orelse:
            m[2].orelse[1].orelse = m[2].orelse[1].orelse + copy.deepcopy(node.orelse)
        return m

    def visit_While(self, node):
        """a while-loop is cut when the contract gives an invariant for it, and runs as it is otherwise"""
        k = self.wcount.get(tuple(self.qual), 0)
        self.wcount[tuple(self.qual)] = k + 1
        mod = sorted(self.modified(node))
        self.generic_visit(node)
        lp = '__wl%d_%d' % (len(self.qual), k)
        src = '''
{lp} = __pydv__.wloop(WHERE, {names}, dict(locals()))
if {lp} is None:
    while COND:
        pass
else:
    if {lp}.choose_iteration():
        HAVOC
        if not COND:
            {lp}.dead()
        for __once in (0,):
            pass
        else:
            {lp}.step(dict(locals()))
    else:
        HAVOC
        if COND:
            {lp}.dead()
'''.format(lp=lp, names=repr(mod))
        hav = 'pass' if not mod else '(%s,) = %s.havoc(dict(locals()))' % (', '.join(mod), lp)
        src = src.replace('HAVOC', hav).replace('WHERE', '(%r, %r)' % ('.'.join(self.qual), 'while%d' % k))
        m = ast.parse(src).body
        for s in m:
            for n in ast.walk(s):
                if hasattr(n, 'lineno'):
                    n.lineno = n.end_lineno = node.lineno
                    n.col_offset = n.end_col_offset = 0
        import copy
        for n in ast.walk(ast.Module(m, [])):
            if isinstance(n, (ast.While, ast.If)):
                if isinstance(n.test, ast.Name) and n.test.id == 'COND':
                    n.test = copy.deepcopy(node.test)
                elif isinstance(n.test, ast.UnaryOp) and isinstance(n.test.operand, ast.Name) and n.test.operand.id == 'COND':
                    n.test.operand = copy.deepcopy(node.test)
        plain = m[1].body[0]
        plain.body, plain.orelse = node.body, node.orelse
        once = next(s for s in m[1].orelse[0].body if isinstance(s, ast.For))
        once.body = copy.deepcopy(node.body)
        if node.orelse:
            m[1].orelse[0].orelse += copy.deepcopy(node.orelse)
        return m

    def modified(self, node):
        """local names a loop body rebinds or may mutate in place (subscript/attribute stores, append)"""
        out = set()
        for st in node.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, ast.Store):
                    b = n.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id != 'self':
                        out.add(b.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'update', 'add', 'pop', 'insert', 'remove') and isinstance(n.func.value, ast.Name) and n.func.value.id not in ('np', 'jnp', 'pd', 'plt', 'nx'):
                    if n.func.value.id != 'self':
                        out.add(n.func.value.id)
        # comprehension variables are not local
        for st in node.body:
            for n in ast.walk(st):
                if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    for g in n.generators:
                        for t in targets(g.target):
                            out.discard(t)
                if isinstance(n, ast.Lambda):
                    pass
        return out

    def assigned_first(self, node):
        """names bound unconditionally by the body before any use: dead at the loop head"""
        out, used = set(), set()
        for st in node.body:
            loads = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            if isinstance(st, ast.Assign):
                used |= {n.id for n in ast.walk(st.value) if isinstance(n, ast.Name)}
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id not in used:
                        out.add(t.id)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for e in t.elts:
                            if isinstance(e, ast.Name) and e.id not in used:
                                out.add(e.id)
                    else:
                        used |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
            else:
                if isinstance(st, ast.If) and st.orelse:
                    # bound in both arms
                    def bound(body):
                        b = set()
                        u = set()
                        for s in body:
                            if isinstance(s, ast.Assign):
                                u |= {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                                b |= {t.id for t in s.targets if isinstance(t, ast.Name) and t.id not in u}
                            else:
                                u |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name)}
                        return b
                    both = bound(st.body) & bound(st.orelse)
                    tl = {n.id for n in ast.walk(st.test) if isinstance(n, ast.Name)}
                    out |= {b for b in both if b not in used and b not in tl}
                used |= loads
        for t in targets(node.target):
            out.add(t)
        return out

    def comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or not simple_target(node.generators[0].target):
            return node
        g = node.generators[0]
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == 'dict' else node.elt

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), body)
            return ast.Lambda(ast.arguments([], [ast.arg('__x')], None, [], [], None, []), ast.Call(inner, [ast.Starred(ast.Name('__x', ast.Load()), ast.Load())], []))
        cond = None
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(c)
        call = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'comp', ast.Load()), [ast.Constant(kind), lam(elt), g.iter] + ([cond] if cond else []), [])
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        return call

    def visit_ListComp(self, node): return self.comp(node, 'list')
    def visit_GeneratorExp(self, node): return self.comp(node, 'gen')
    def visit_SetComp(self, node): return self.comp(node, 'set')
    def visit_DictComp(self, node): return self.comp(node, 'dict')

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            node.func = ast.copy_location(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'sformat', ast.Load()), f)
            node.args = [f.value] + node.args
            ast.fix_missing_locations(node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                inner = self.visit(v.value)
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'fmt', ast.Load()), [inner, ast.Constant(v.conversion), spec], []))
        c = ast.Call(ast.Attribute(ast.Name('__pydv__', ast.Load()), 'fstr', ast.Load()), parts, [])
        ast.copy_location(c, node)
        ast.fix_missing_locations(c)
        return c


LOADING = [0]


class Stub:
    """an imported library the verified functions do not depend on"""
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Stub(self._n + '.' + k)

    def __call__(self, *a, **k):
        # decorators: @njit, @partial(jit, ...) and friends return the function itself
        if len(a) == 1 and not k and isinstance(a[0], types.FunctionType):
            return a[0]
        if self._n.split('.')[-1] in ('jit', 'njit', 'vectorize', 'guvectorize'):
            return lambda f: f
        if self._n.split('.')[-1] == 'tqdm':
            return a[0]
        if self._n.startswith('logging') or self._n.startswith('matplotlib') or self._n.startswith('warnings'):
            return Stub(self._n + '()')
        if LOADING[0]:
            return Stub(self._n + '()')
        raise Unsupported('call of %s' % self._n)

    def __mro_entries__(self, bases):
        return (object,)

    def __repr__(self):
        return '<stub %s>' % self._n


STUBBED = {'matplotlib', 'tqdm', 'numba', 'ray', 'logging', 'warnings', 'lightgbm', 'quantile_forest', 'networkx', 'seaborn', 'statsmodels', 'optuna', 'sklearn', 'jax', 'jaxlib', 'optax', 'flax', 'scipy', 'swifter', 'cvxpy', 'plotly', 'concurrent', 'multiprocessing', 'psutil', 'sktime', 'copulae', 'pickle', 'gc'}


class Loader:
    def __init__(self, extra=None):
        self.mods = {}
        self.digests = {}
        self.extra = extra or {}

    def path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        return p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.path(name)
        src = open(path).read()
        self.digests[os.path.relpath(path, REPO)] = hashlib.sha256(src.encode()).hexdigest()[:16]
        tree = Rewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__file__ = path
        b = dict(BUILTINS)
        b['__import__'] = self.imp
        m.__dict__['__builtins__'] = b
        m.__dict__['__pydv__'] = Runtime(name)
        try:
            code = compile(tree, path, 'exec')
        except (ValueError, TypeError) as e:
            raise Unsupported('source transformation: %s' % e)
        LOADING[0] += 1
        try:
            exec(code, m.__dict__)
        finally:
            LOADING[0] -= 1
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__name__'].rsplit('.', level)[0] if globals['__name__'].count('.') >= level else globals['__name__']
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if name in self.extra:
            return self.extra[name]
        if top in self.extra and not fromlist:
            return self.extra[top]
        if top == 'pyforecaster':
            if fromlist:
                p = os.path.join(REPO, *name.split('.'))
                if os.path.isdir(p):
                    ns = types.ModuleType(name)
                    for f in fromlist:
                        if os.path.exists(os.path.join(p, f + '.py')) or os.path.isdir(os.path.join(p, f)):
                            setattr(ns, f, self.load(name + '.' + f))
                        else:
                            setattr(ns, f, getattr(self.load(name), f))
                    return ns
                return self.load(name)
            pkg = types.ModuleType('pyforecaster')
            cur, full = pkg, 'pyforecaster'
            for part in name.split('.')[1:]:
                full += '.' + part
                mm = self.load(full)
                setattr(cur, part, mm)
                cur = mm
            return pkg
        if top == 'numpy':
            import npx
            m = npx.NP
            if fromlist:
                for part in name.split('.')[1:]:
                    m = getattr(m, part)
            return m
        if top == 'pandas':
            import frame
            return frame.PD
        if name == 'jax.numpy':
            import npx
            if fromlist:
                return npx.NP
        if top == 'jax':
            import jx
            return jx.get(name, fromlist)
        if top in STUBBED:
            if fromlist:
                return Stub(name)
            return Stub(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)
