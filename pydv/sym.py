"""Symbolic scalars, path exploration and verification conditions.

Numbers are mathematical: Python/numpy floats are z3 reals (no rounding, no infinities), integers are unbounded.
A number may carry a `nan` flag (a z3 Bool): arithmetic propagates it, every comparison with a NaN is false (!= is true).
"""
import sys, time, itertools
from fractions import Fraction
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
import lin

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
ARR_R, ARR_B, ARR_I = z3.ArraySort(INT, REAL), z3.ArraySort(INT, BOOL), z3.ArraySort(INT, INT)


class Unsupported(Exception):
    """outside the engine's reach: the obligation stays undecided"""


class PathEnd(BaseException):
    """this path is finished (an invariant was re-established, or the path is infeasible)"""


class Ctx:
    cur = None

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []          # decisions of this run
        self.pending = []        # alternative prefixes discovered
        self.path = []           # assumed conditions, in order (z3 Bool)
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.notes = set()
        self.quick = 0
        self.inexact = False     # an over-approximation was used on this path
        self.keep = []
        self.L = lin.Lin()

    def assume(self, c):
        c = boolterm(c)
        self.path.append(c)
        if not has_quant(c):
            self.solver.add(self.lin(c))

    def lin(self, c):
        try:
            return self.L.term(z3.simplify(c))
        except lin.TooBig:
            return z3.BoolVal(True)

    def feasible(self, c):
        self.solver.push()
        self.solver.add(self.lin(c))
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            if k > 400:
                raise Unsupported('too many decisions on one path')
            t = self.feasible(c)
            f = self.feasible(z3.Not(c)) if t else True
            if t and f:
                self.pending.append(self.taken + [False])
                v = True
            else:
                v = t
            if not (t and f):
                # decided by the path: no fork, and recorded for replays
                self.taken.append(v)
                self.path.append(c if v else z3.Not(c))
                self.solver.add(self.lin(c if v else z3.Not(c)))
                return v
        self.taken.append(v)
        self.path.append(c if v else z3.Not(c))
        self.solver.add(self.lin(c if v else z3.Not(c)))
        return v

    def choose(self, n, why=''):
        """demonic choice between n alternatives"""
        for i in range(n - 1):
            k = len(self.taken)
            if k < len(self.prefix):
                v = self.prefix[k]
            else:
                v = True
                self.pending.append(self.taken + [False])
            self.taken.append(v)
            if v:
                return i
        return n - 1


def ctx():
    if Ctx.cur is None:
        raise Unsupported('symbolic value used outside a verification run')
    return Ctx.cur


_fresh = itertools.count()


def fresh(sort, name='k'):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def close(j, body):
    """the array j -> body; the bound variable has one fixed name, so that equal bodies give the same term"""
    c = z3.Const('?%s' % j.sort(), j.sort())
    return z3.Lambda([c], z3.substitute(body, (j, c)))


def has_quant(e, seen=None):
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) and not x.is_lambda():
            return True
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


def num(v):
    """Python number -> z3 term (and NaN flag)"""
    import numpy as np
    if isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(bool(v)), None
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v)), None
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v:
            return z3.RealVal(0), z3.BoolVal(True)
        if v in (float('inf'), float('-inf')):
            raise Unsupported('infinite value in a formula')
        f = Fraction(repr(v)) if abs(v) < 1e300 else Fraction(v)
        return z3.RealVal(f), None
    if isinstance(v, Fraction):
        return z3.RealVal(v), None
    if isinstance(v, (np.timedelta64, np.datetime64)):
        u = v.astype('timedelta64[ns]' if isinstance(v, np.timedelta64) else 'datetime64[ns]').astype('int64')
        return z3.IntVal(int(u)), None
    if type(v).__name__ in ('Timestamp', 'Timedelta'):
        return z3.IntVal(int(v.value)), None
    return None


def _or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


class S:
    """a symbolic scalar"""
    __slots__ = ('t', 'nan')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t, nan=None):
        self.t = t
        if nan is not None:
            nan = z3.simplify(nan)
            if z3.is_false(nan):
                nan = None
        self.nan = nan

    # -- conversions
    def __bool__(self):
        return ctx().branch(truth(self))

    def concrete(self):
        t = z3.simplify(self.t)
        if self.nan is not None:
            n = z3.simplify(self.nan)
            if z3.is_true(n):
                return float('nan')
            if not z3.is_false(n):
                return None
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return float(f)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return None

    def __index__(self):
        v = self.concrete()
        if isinstance(v, int):
            return v
        v = implied_int(self)
        if v is not None:
            return v
        raise Unsupported('a symbolic number is used where Python needs a concrete integer')

    __int__ = __index__

    def __float__(self):
        v = self.concrete()
        if v is not None:
            return float(v)
        raise Unsupported('a symbolic number is used where Python needs a concrete float')

    def __hash__(self):
        return hash(('S', self.t.get_id()))

    def __repr__(self):
        return 'S(%s)' % str(self.t)[:80]

    def __format__(self, spec):
        raise Unsupported('text of a symbolic number')

    def __str__(self):
        return 'S(%s)' % str(self.t)[:80]

    # -- arithmetic
    def __add__(a, b): return arith('+', a, b)
    def __radd__(a, b): return arith('+', b, a)
    def __sub__(a, b): return arith('-', a, b)
    def __rsub__(a, b): return arith('-', b, a)
    def __mul__(a, b): return arith('*', a, b)
    def __rmul__(a, b): return arith('*', b, a)
    def __truediv__(a, b): return arith('/', a, b)
    def __rtruediv__(a, b): return arith('/', b, a)
    def __floordiv__(a, b): return arith('//', a, b)
    def __rfloordiv__(a, b): return arith('//', b, a)
    def __mod__(a, b): return arith('%', a, b)
    def __rmod__(a, b): return arith('%', b, a)
    def __pow__(a, b): return arith('**', a, b)
    def __rpow__(a, b): return arith('**', b, a)
    def __neg__(a): return S(-numterm(a), a.nan)
    def __pos__(a): return a
    def __abs__(a): return ite(a >= 0, a, -a) if a.nan is None else S(z3.If(numterm(a) >= 0, numterm(a), -numterm(a)), a.nan)
    def __lt__(a, b): return compare('<', a, b)
    def __le__(a, b): return compare('<=', a, b)
    def __gt__(a, b): return compare('>', a, b)
    def __ge__(a, b): return compare('>=', a, b)
    def __eq__(a, b): return compare('==', a, b)
    def __ne__(a, b): return compare('!=', a, b)
    def __and__(a, b): return logic('&', a, b)
    def __rand__(a, b): return logic('&', b, a)
    def __or__(a, b): return logic('|', a, b)
    def __ror__(a, b): return logic('|', b, a)
    def __xor__(a, b): return logic('^', a, b)
    def __rxor__(a, b): return logic('^', b, a)

    def __invert__(a):
        if z3.is_bool(a.t):
            return S(z3.Not(a.t))
        raise Unsupported('bitwise complement')

    def __round__(a, n=None):
        if n is None:
            return round_half_even(a)
        raise Unsupported('round with digits')

    # numpy-scalar conveniences
    @property
    def T(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self):
        from arr import Dt
        return Dt('b' if z3.is_bool(self.t) else 'i' if z3.is_int(self.t) else 'f')
    def item(self): return self
    def copy(self): return self
    def astype(self, d):
        from arr import cast, dt_kind
        return cast(self, dt_kind(d))
    def mean(self, *a, **k): return self
    def sum(self, *a, **k): return self
    def ravel(self):
        from arr import Arr
        return Arr((1,), lambda i: self)
    def reshape(self, *s):
        from arr import Arr
        return Arr((1,), lambda i: self).reshape(*s)


def is_sym(v):
    return isinstance(v, S)


def lift(v):
    if isinstance(v, S):
        return v
    r = num(v)
    if r is None:
        if hasattr(v, '__pydv_scalar__'):
            return v.__pydv_scalar__()
        raise Unsupported('cannot use a %s in a formula' % type(v).__name__)
    return S(*r)


def numterm(v):
    v = lift(v)
    if z3.is_bool(v.t):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    return v.t


def real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def truth(v):
    v = lift(v)
    if z3.is_bool(v.t):
        return v.t
    c = v.t != 0
    return c if v.nan is None else z3.Or(v.nan, c)


def boolterm(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    import numpy as np
    if isinstance(v, np.bool_):
        return z3.BoolVal(bool(v))
    return truth(v)


def inf_of(v):
    import numpy as np
    if isinstance(v, (float, np.floating)) and float(v) in (float('inf'), float('-inf')):
        return float(v)
    return None


def int_of(t):
    """the integer term of a real term that is an integer by construction"""
    if z3.is_int(t):
        return t
    t = z3.simplify(t)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if z3.is_to_real(t):
        return t.arg(0)
    if z3.is_add(t) or z3.is_mul(t):
        cs = [int_of(c) for c in t.children()]
        if all(c is not None for c in cs):
            return z3.simplify(z3.Sum(*cs) if z3.is_add(t) else z3.Product(*cs))
    return None


def arith(op, a, b):
    import numpy as np
    for q in (a, b):
        if hasattr(q, '__pydv_array__') or isinstance(q, (np.ndarray,)):
            from arr import elementwise
            return elementwise(lambda x, y: arith(op, x, y), a, b)
        if isinstance(q, (str, list, tuple, dict, type(None))):
            return NotImplemented
    a, b = lift(a), lift(b)
    nan = _or(a.nan, b.nan)
    x, y = numterm(a), numterm(b)
    if op == '+':
        return S(x + y, nan)
    if op == '-':
        return S(x - y, nan)
    if op == '*':
        if z3.is_bool(a.t) and z3.is_bool(b.t):
            return S(z3.And(a.t, b.t))
        return S(x * y, nan)
    if op == '/':
        return S(real(x) / real(y), nan)
    if op in ('//', '%'):
        if z3.is_int(x) and z3.is_int(y):
            ys = z3.simplify(y)
            if z3.is_int_value(ys) and ys.as_long() > 0:
                q = x / y
            else:
                C = Ctx.cur
                if C is not None and not C.feasible(y <= 0):
                    q = x / y
                    C.solver.add(C.lin(z3.And(x - y * q >= 0, x - y * q < y)))
                else:
                    q = z3.If(y > 0, x / y, (-x) / (-y))
        else:
            xi, yi = int_of(x), int_of(y)
            if xi is not None and yi is not None:
                r = arith(op, S(xi), S(yi))
                return S(z3.ToReal(r.t), nan)
            q = z3.ToReal(z3.ToInt(real(x) / real(y)))
        return S(q if op == '//' else x - y * q, nan)
    if op == '**':
        e = S(y).concrete()
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, int) and 0 <= e <= 6:
            r = z3.IntVal(1) if z3.is_int(x) else z3.RealVal(1)
            for _ in range(e):
                r = r * x
            return S(r, nan) if e else S(r)
        if isinstance(e, int) and -4 <= e < 0:
            r = z3.RealVal(1)
            for _ in range(-e):
                r = r * real(x)
            return S(1 / r, nan)
        if e == 0.5:
            return sqrt(a)
        return S(POW(real(x), real(y)), nan)
    raise Unsupported(op)


def compare(op, a, b):
    import numpy as np
    for q in (a, b):
        if hasattr(q, '__pydv_array__') or isinstance(q, (np.ndarray,)):
            from arr import elementwise
            return elementwise(lambda x, y: compare(op, x, y), a, b)
    if isinstance(a, (str, type(None), tuple, list, dict, type)) or isinstance(b, (str, type(None), tuple, list, dict, type)):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    ia, ib = inf_of(a), inf_of(b)
    if ia is not None or ib is not None:
        u, v = (ia if ia is not None else 0.), (ib if ib is not None else 0.)
        r = dict([('<', u < v), ('<=', u <= v), ('>', u > v), ('>=', u >= v), ('==', u == v), ('!=', u != v)])[op]
        other = a if ib is not None else b
        n = other.nan if isinstance(other, S) else None
        if n is not None:
            return S(z3.If(n, z3.BoolVal(op == '!='), z3.BoolVal(r)))
        return S(z3.BoolVal(r))
    try:
        a, b = lift(a), lift(b)
    except Unsupported:
        if op in ('==', '!='):
            return NotImplemented
        raise
    nan = _or(a.nan, b.nan)
    if a.t.sort() == b.t.sort() and op in ('==', '!='):
        c = a.t == b.t
        if op == '!=':
            c = z3.Not(c)
    elif z3.is_arith(a.t) or z3.is_bool(a.t):
        if not (z3.is_arith(b.t) or z3.is_bool(b.t)):
            return S(z3.BoolVal(op == '!='))
        x, y = numterm(a), numterm(b)
        c = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    else:
        if op in ('==', '!='):
            return S(z3.BoolVal(op == '!='))
        raise Unsupported('order of values of sort %s' % a.t.sort())
    if nan is None:
        return S(c)
    return S(z3.Or(nan, c) if op == '!=' else z3.And(z3.Not(nan), c))


def logic(op, a, b):
    import numpy as np
    for q in (a, b):
        if hasattr(q, '__pydv_array__') or isinstance(q, (np.ndarray,)):
            from arr import elementwise
            return elementwise(lambda x, y: logic(op, x, y), a, b)
    a, b = lift(a), lift(b)
    if not (z3.is_bool(a.t) and z3.is_bool(b.t)):
        raise Unsupported('bitwise operation on numbers')
    return S({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a.t, b.t))


def ite(c, a, b):
    """value-level if; c, a, b scalars"""
    if isinstance(c, bool):
        return a if c else b
    c = boolterm(c)
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    if a is b:
        return a
    if not isinstance(a, S) and not isinstance(b, S) and num(a) is None:
        raise Unsupported('a choice between non-numeric values')
    a, b = lift(a), lift(b)
    x, y = a.t, b.t
    if x.sort() != y.sort():
        if z3.is_bool(x):
            x = numterm(a)
        if z3.is_bool(y):
            y = numterm(b)
        if z3.is_arith(x) and z3.is_arith(y) and x.sort() != y.sort():
            x, y = real(x), real(y)
        if x.sort() != y.sort():
            raise Unsupported('a choice between values of different sorts')
    nan = None
    if a.nan is not None or b.nan is not None:
        nan = z3.If(c, a.nan if a.nan is not None else z3.BoolVal(False), b.nan if b.nan is not None else z3.BoolVal(False))
    return S(z3.If(c, x, y), nan)


def And(*a):
    a = [boolterm(x) for x in a]
    return S(z3.And(*a) if a else z3.BoolVal(True))


def Or(*a):
    a = [boolterm(x) for x in a]
    return S(z3.Or(*a) if a else z3.BoolVal(False))


def Not(a):
    return S(z3.Not(boolterm(a)))


def Implies(a, b):
    return S(z3.Implies(boolterm(a), boolterm(b)))


def same(a, b):
    """equal as stored values: both NaN, or both not NaN and equal"""
    a, b = lift(a), lift(b)
    na = a.nan if a.nan is not None else z3.BoolVal(False)
    nb = b.nan if b.nan is not None else z3.BoolVal(False)
    if a.t.sort() == b.t.sort():
        c = a.t == b.t
    else:
        c = numterm(a) == numterm(b)
    if a.nan is None and b.nan is None:
        return S(c)
    return S(z3.And(na == nb, z3.Or(na, c)))


def implied_int(s):
    """the value of s if the path condition forces it"""
    c = Ctx.cur
    if c is None or not z3.is_int(s.t):
        return None
    if c.solver.check() != z3.sat:
        return None
    v = c.solver.model().eval(s.t, model_completion=True)
    if not z3.is_int_value(v):
        return None
    if not c.feasible(s.t != v):
        return v.as_long()
    return None


def sint(name='n', lo=None, hi=None):
    v = S(fresh(INT, name))
    if lo is not None:
        ctx().assume(v.t >= lo)
    if hi is not None:
        ctx().assume(v.t <= (hi.t if isinstance(hi, S) else hi))
    return v


def sreal(name='x', lo=None, hi=None):
    v = S(fresh(REAL, name))
    if lo is not None:
        ctx().assume(v.t >= lo)
    if hi is not None:
        ctx().assume(v.t <= (hi.t if isinstance(hi, S) else hi))
    return v


def sbool(name='b'):
    return S(fresh(BOOL, name))


# ---------------------------------------------------------------- uninterpreted mathematics with ground axioms
POW = z3.Function('pow', REAL, REAL, REAL)
SQRT = z3.Function('sqrt', REAL, REAL)
EXP = z3.Function('exp', REAL, REAL)
LOG = z3.Function('log', REAL, REAL)
SIN = z3.Function('sin', REAL, REAL)
COS = z3.Function('cos', REAL, REAL)
TANH = z3.Function('tanh', REAL, REAL)


def sqrt(a):
    a = lift(a)
    return S(SQRT(real(numterm(a))), a.nan)


def exp(a):
    a = lift(a)
    x = z3.simplify(real(numterm(a)))
    if z3.is_app(x) and x.decl().eq(LOG):
        ctx_ok = Ctx.cur
    return S(EXP(x), a.nan)


def log(a):
    a = lift(a)
    return S(LOG(z3.simplify(real(numterm(a)))), a.nan)


def unary(f):
    def g(a):
        a = lift(a)
        return S(f(real(numterm(a))), a.nan)
    return g


sin, cos, tanh = unary(SIN), unary(COS), unary(TANH)


def floor(a):
    a = lift(a)
    x = numterm(a)
    return S(x if z3.is_int(x) else z3.ToReal(z3.ToInt(x)), a.nan)


def ceil(a):
    a = lift(a)
    x = numterm(a)
    return S(x if z3.is_int(x) else -z3.ToReal(z3.ToInt(-x)), a.nan)


def trunc_int(a):
    a = lift(a)
    x = numterm(a)
    xi = int_of(x)
    if xi is not None:
        return S(xi)
    return S(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x)))


def round_half_even(a):
    a = lift(a)
    x = numterm(a)
    if z3.is_int(x):
        return S(x)
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    return S(z3.If(d < z3.RealVal('1/2'), f, z3.If(d > z3.RealVal('1/2'), f + 1, z3.If(f % 2 == 0, f, f + 1))))


# ---------------------------------------------------------------- reductions over an index range
# RED_op(values, members, n, extra): op over {values[j] : 0 <= j < n, members[j]}; uninterpreted except for the axioms below
_reds = {}


def red_decl(op, nextra=0, sort=REAL):
    k = (op, nextra)
    if k not in _reds:
        _reds[k] = z3.Function('red_' + op, ARR_R, ARR_B, INT, *([REAL] * nextra), sort)
    return _reds[k]


SEL = z3.Function('sel', ARR_B, INT, INT, INT)          # position (in the base) of the k-th member
RANK = z3.Function('rank', ARR_B, INT, INT, INT)        # number of members before position i
COUNT = z3.Function('count', ARR_B, INT, INT)           # number of members below n


def _free_of(e, j):
    ji = j.get_id()
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == ji:
            return False
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return True


def _unsel(j, n, val, mem):
    """reduction over the positions of a selection -> reduction over the base with the selection as members"""
    ns = z3.simplify(n)
    if z3.is_app(ns) and ns.decl().eq(COUNT):
        cond, base = ns.arg(0), ns.arg(1)
        i = fresh(INT, 'j')
        target = SEL(cond, base, j)
        v2 = z3.substitute(val, (target, i))
        m2 = z3.substitute(mem, (target, i))
        if _free_of(v2, j) and _free_of(m2, j):
            return _unsel(i, base, v2, z3.And(z3.simplify(z3.Select(cond, i)), m2))
    return j, ns, val, mem


def reduce_term(op, n, valfn, memfn=None, extra=()):
    """op over valfn(j), 0<=j<n with memfn(j); valfn returns S (NaN members are left out by the caller)"""
    n = numterm(n)
    j = fresh(INT, 'j')
    v = valfn(S(j))
    v = lift(v)
    if op == 'sum' and z3.is_bool(v.t) and v.nan is None:       # a sum of truth values counts them
        old = memfn
        return reduce_term('count', S(n), lambda i: 1, lambda i: And(old(i) if old is not None else True, valfn(i)))
    val = z3.simplify(real(numterm(v)))
    mem = z3.simplify(boolterm(memfn(S(j)))) if memfn is not None else z3.BoolVal(True)
    j, n, val, mem = _unsel(j, n, val, mem)
    if op == 'sum':
        return S(_sum(j, n, val, mem))
    if op == 'count':
        return S(_count(j, n, mem))
    f = red_decl(op, len(extra))
    return S(f(close(j, z3.simplify(val)), close(j, z3.simplify(mem)), n, *[real(numterm(e)) for e in extra]))


def _count(j, n, mem):
    mem = z3.simplify(mem)
    if z3.is_true(mem):
        return z3.simplify(z3.If(n >= 0, n, z3.IntVal(0))) if not z3.is_app_of(n, z3.Z3_OP_UNINTERPRETED) else n
    if z3.is_false(mem):
        return z3.IntVal(0)
    return COUNT(close(j, mem), n)


def _sum(j, n, val, mem):
    """sums are kept linear: addends and factors that do not depend on the index are taken out"""
    val = z3.simplify(val, som=True) if not has_ite(val) else z3.simplify(val)
    if z3.is_rational_value(val) and val.numerator_as_long() == 0:
        return z3.RealVal(0)
    if z3.is_app_of(val, z3.Z3_OP_ADD):
        return z3.Sum(*[_sum(j, n, c, mem) for c in val.children()])
    if z3.is_app_of(val, z3.Z3_OP_SUB):
        c = val.children()
        r = _sum(j, n, c[0], mem)
        for x in c[1:]:
            r = r - _sum(j, n, x, mem)
        return r
    if z3.is_app_of(val, z3.Z3_OP_UMINUS):
        return -_sum(j, n, val.arg(0), mem)
    if z3.is_app_of(val, z3.Z3_OP_MUL):
        out, inn = [], []
        for c in val.children():
            (out if _free_of(c, j) else inn).append(c)
        if out and inn:
            return z3.Product(*out) * _sum(j, n, z3.Product(*inn) if len(inn) > 1 else inn[0], mem)
    if z3.is_app_of(val, z3.Z3_OP_DIV) and _free_of(val.arg(1), j):
        return _sum(j, n, val.arg(0), mem) / val.arg(1)
    if _free_of(val, j):
        return val * z3.ToReal(_count(j, n, mem))
    f = red_decl('sum')
    return f(close(j, val), close(j, z3.simplify(mem)), n)


def has_ite(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


# ---------------------------------------------------------------- proving
AX = {}     # decl id -> function(term) -> list of z3 facts
FACTS = {}  # decl id -> list of functions(pairs of applications) -> list of z3 facts
KEEP = []   # declarations whose ids are in use on this path (ids of dead declarations are given out again)
_BASE = []


def reset_axioms():
    """forget the axioms of the functions of earlier paths"""
    if not _BASE:
        _BASE.append((dict(AX), {k: list(v) for k, v in FACTS.items()}, set(DEEP), list(WITNESS), set(GHOST)))
        return
    a, f, d, w, g = _BASE[0]
    for x, y in ((AX, a), (FACTS, {k: list(v) for k, v in f.items()}), (DEEP, d), (GHOST, g)):
        x.clear()
        x.update(y)
    WITNESS[:] = w
    KEEP.clear()


def axiom(decl):
    def reg(f):
        AX[decl.get_id()] = f
        return f
    return reg


@axiom(SQRT)
def _(t):
    return [z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0)))]


@axiom(EXP)
def _(t):
    x = t.arg(0)
    f = [t > 0, z3.Implies(x == 0, t == 1), (x > 0) == (t > 1), LOG(t) == x]
    return f


@axiom(LOG)
def _(t):
    x = t.arg(0)
    return [z3.Implies(x > 0, EXP(t) == x), z3.Implies(x == 1, t == 0)]


@axiom(TANH)
def _(t):
    return [t < 1, t > -1, (t.arg(0) == 0) == (t == 0), (t.arg(0) > 0) == (t > 0)]


@axiom(SEL)
def _(t):
    c, n, k = t.children()
    return [z3.Implies(z3.And(k >= 0, k < COUNT(c, n)), z3.And(t >= 0, t < n, z3.Select(c, t), RANK(c, n, t) == k))]


@axiom(RANK)
def _(t):
    c, n, i = t.children()
    return [z3.Implies(z3.And(i >= 0, i < n, z3.Select(c, i)), z3.And(t >= 0, t < COUNT(c, n), SEL(c, n, t) == i))]


@axiom(COUNT)
def _(t):
    c, n = t.children()
    return [t >= 0, z3.Implies(n >= 0, t <= n)]


def _extreme(op):
    at = z3.Function('arg' + op, ARR_R, ARR_B, INT, INT)

    @axiom(red_decl(op))
    def _(t):
        v, m, n = t.children()
        j, w = z3.Int('j!' + op), at(v, m, n)
        b = z3.Select(v, j) <= t if op == 'max' else z3.Select(v, j) >= t
        return [z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, z3.Select(m, j)), z3.And(b, w >= 0, w < n, z3.Select(m, w), z3.Select(v, w) == t)))]


_extreme('max')
_extreme('min')


def apps(es):
    """all closed applications in the expressions (not under binders)"""
    out, seen, st = [], set(), list(es)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if DEEP:
                deep(x.body(), out, seen, st)
            continue
        if z3.is_app(x):
            if x.num_args():
                out.append(x)
            st.extend(x.children())
    return out


DEEP = set()    # decl ids of functions whose closed applications under binders matter as well
_deep = {}


def deep(body, out, seen, st):
    k = body.get_id()
    if k not in _deep:
        l, todo, sn = [], [body], set()
        while todo:
            x = todo.pop()
            if x.get_id() in sn:
                continue
            sn.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.decl().get_id() in DEEP and not loose(x):
                    l.append(x)
                todo.extend(x.children())
        _deep[k] = (body, l)
    st.extend(_deep[k][1])


def loose(e, d=0, seen=None):
    """does the term have variables bound outside it?"""
    seen = set() if seen is None else seen
    if (e.get_id(), d) in seen:
        return False
    seen.add((e.get_id(), d))
    if z3.is_var(e):
        return z3.get_var_index(e) >= d
    if z3.is_quantifier(e):
        return loose(e.body(), d + e.num_vars(), seen)
    return any(loose(c, d, seen) for c in e.children())


class Proof:
    def __init__(self, status, model=None, reason='', backend='z3', time=0., exact=True):
        self.status, self.model, self.reason, self.backend, self.time, self.exact = status, model, reason, backend, time, exact


STATS = dict(queries=0, solver_s=0., lemmas=0)


def _solve(fs, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS['queries'] += 1
    STATS['solver_s'] += time.time() - t0
    return r, s


def is_zero_div(x):
    return False


WITNESS = []   # decl ids of position functions: a member at such a position makes a count positive
GHOST = set()    # decl ids of ghost functions given by a definition


def instantiate(fs, rounds=3, unfold=3):
    done, extra, frontier, paired = set(), [], list(fs), set()
    byd = {}
    for rnd in range(rounds):
        new = []
        for t in apps(frontier):
            if t.get_id() in done:
                continue
            done.add(t.get_id())
            d = t.decl()
            f = AX.get(d.get_id())
            if f and (rnd < unfold or d.get_id() not in GHOST):
                new += f(t)
            byd.setdefault(d.get_id(), []).append(t)
        # pairwise facts
        for d in (SEL,):
            l = byd.get(d.get_id(), [])
            for a, b in itertools.combinations(l[:12], 2):
                if a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
                    n = COUNT(a.arg(0), a.arg(1))
                    rng = z3.And(a.arg(2) >= 0, b.arg(2) >= 0, a.arg(2) < n, b.arg(2) < n)
                    new += [z3.Implies(rng, z3.And((a.arg(2) < b.arg(2)) == (a < b), (a.arg(2) == b.arg(2)) == (a == b)))]
        for d in (EXP,):
            l = byd.get(d.get_id(), [])
            for a, b in itertools.combinations(l[:10], 2):
                new += [(a.arg(0) < b.arg(0)) == (a < b), (a.arg(0) == b.arg(0)) == (a == b)]
        for d in (LOG,):
            l = byd.get(d.get_id(), [])
            for a, b in itertools.combinations(l[:10], 2):
                new += [z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) < b.arg(0)) == (a < b))]
        for d in (SQRT,):
            l = byd.get(d.get_id(), [])
            for a, b in itertools.combinations(l[:10], 2):
                new += [z3.Implies(z3.And(a.arg(0) >= 0, b.arg(0) >= 0), (a.arg(0) < b.arg(0)) == (a < b))]
        for d, l in byd.items():
            if d in FACTS:
                prs = [p for p in itertools.combinations(l[:10], 2) if (p[0].get_id(), p[1].get_id()) not in paired]
                paired.update((a.get_id(), b.get_id()) for a, b in prs)
                for g in FACTS[d]:
                    new += g(prs)
        for t in byd.get(COUNT.get_id(), [])[:6]:
            for w in WITNESS:
                for p in byd.get(w, [])[:6]:
                    if (t.get_id(), p.get_id()) not in paired:
                        paired.add((t.get_id(), p.get_id()))
                        new.append(z3.Implies(z3.And(p >= 0, p < t.arg(1), z3.Select(t.arg(0), p)), t >= 1))
        new = [z3.simplify(f) for f in new]
        new = [f for f in new if not z3.is_true(f)]
        if not new:
            break
        extra += new
        frontier = new
    return extra


def red_ops():
    return {f.get_id(): k for k, f in _reds.items()}


def reduction_lemmas(fs, hyps, depth, timeout):
    """equalities between reductions over provably equal members (each by its own query)"""
    ops = red_ops()
    groups = {}
    for t in apps(fs):
        i = t.decl().get_id()
        if i in ops or t.decl().eq(COUNT) or t.decl().eq(SEL):
            groups.setdefault((i,), []).append(t)
    out = []
    for k, l in groups.items():
        reps = []
        for t in l:
            hit = False
            for r in reps:
                if _red_equal(t, r, hyps, depth, timeout):
                    out.append(t == r)
                    STATS['lemmas'] += 1
                    hit = True
                    break
            if not hit:
                reps.append(t)
            if len(reps) > 12:
                break
    for t in [t for k, l in groups.items() for t in l if k[0] == red_decl('sum').get_id()][:6]:
        j = fresh(INT, 'j')
        pre = z3.And(j >= 0, j < t.arg(2), z3.Select(t.arg(1), j))
        for rel in (lambda v: v == 0, lambda v: v >= 0):
            if prove(hyps, z3.simplify(z3.Implies(pre, rel(z3.Select(t.arg(0), j)))), 1500, 0, False, False).status == 'proved':
                out.append(rel(t))
                STATS['lemmas'] += 1
                break
    return out


def _red_equal(a, b, hyps, depth, timeout):
    j = fresh(INT, 'j')
    if a.decl().eq(COUNT):
        n1, n2 = a.arg(1), b.arg(1)
        body = z3.Select(a.arg(0), j) == z3.Select(b.arg(0), j)
        rest = []
    elif a.decl().eq(SEL):
        n1, n2 = a.arg(1), b.arg(1)
        if a.arg(0).eq(b.arg(0)):
            return False
        body = z3.Select(a.arg(0), j) == z3.Select(b.arg(0), j)
        rest = [a.arg(2) == b.arg(2)]
    else:
        n1, n2 = a.arg(2), b.arg(2)
        m1, m2 = z3.Select(a.arg(1), j), z3.Select(b.arg(1), j)
        body = z3.And(m1 == m2, z3.Implies(m1, z3.Select(a.arg(0), j) == z3.Select(b.arg(0), j)))
        rest = [x == y for x, y in zip(a.children()[3:], b.children()[3:])]
    goal = z3.And(n1 == n2, *rest, z3.Implies(z3.And(j >= 0, j < n1), body))
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if depth <= 0:
        return False
    p = prove(hyps, g, timeout=min(timeout, 4000), depth=depth - 1, want_model=False, second=False)
    return p.status == 'proved'


def relevant(hyps, goal):
    """hypotheses connected to the goal through shared symbols (transitively)"""
    def syms(e):
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().get_id())
                st.extend(x.children())
        return out
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal)
    used = [False] * len(hs)
    changed = True
    while changed:
        changed = False
        for i, (h, s) in enumerate(hs):
            if not used[i] and (s & cur or not s):
                used[i] = True
                cur |= s
                changed = True
    return [h for (h, s), u in zip(hs, used) if u]


def forall_instances(hyps, goal_terms):
    return []


def split_goal(hyps, goal, most=24):
    """cases of the goal by the conditions of the choices inside it; None when there is nothing to split"""
    s = z3.Solver()
    s.set('timeout', 300)
    ground = [h for h in hyps if not has_quant(h) and not lin.nonlinear([h])]
    for h in ground:
        s.add(h)

    def first_ite(e, seen):
        if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
            return None
        seen.add(e.get_id())
        if z3.is_app_of(e, z3.Z3_OP_ITE) and not z3.is_bool(e) and not has_var(e.arg(0)):
            inner = first_ite(e.arg(0), seen)
            return inner if inner is not None else e
        for c in e.children():
            r = first_ite(c, seen)
            if r is not None:
                return r
        return None
    out, todo, split = [], [([], goal)], False
    while todo:
        lits, g = todo.pop()
        e = first_ite(g, set())
        if e is None:
            out.append((lits, g))
            if len(out) > most:
                return None
            continue
        split = True
        if len(lits) > 10 or len(todo) > most:
            return None
        c = e.arg(0)
        t0 = time.time()
        for lit, val in ((c, z3.BoolVal(True)), (z3.Not(c), z3.BoolVal(False))):
            s.push()
            for l in lits + [lit]:
                s.add(l)
            r = s.check()
            s.pop()
            if r != z3.unsat:
                todo.append((lits + [lit], z3.simplify(z3.substitute(g, (c, val)))))
        STATS['solver_s'] += time.time() - t0
    return out if split else None


def has_var(e):
    st = [e]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        st.extend(x.children())
    return False


def _universal(c):
    return (z3.is_quantifier(c) and c.is_forall()) or (z3.is_not(c) and z3.is_quantifier(c.arg(0)) and c.arg(0).is_exists())


def prove(hyps, goal, timeout=10000, depth=2, want_model=True, second=True, split=True):
    """hyps |= goal"""
    t0 = time.time()
    goal = z3.simplify(boolterm(goal))
    if z3.is_true(goal):
        return Proof('proved', backend='simplify', time=time.time() - t0)
    hyps = [boolterm(h) for h in hyps]
    # open conjunctions in the goal one by one
    if z3.is_and(goal) and goal.num_args() <= 12:
        worst = None
        for g in goal.children():
            p = prove(hyps, g, timeout, depth, want_model, second, split)
            if p.status != 'proved':
                return p
            worst = p if worst is None or worst.backend == 'simplify' else worst
        worst.time = time.time() - t0
        return worst
    # skolemise a universally quantified goal
    extra_h = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [fresh(goal.var_sort(i), 'sk') for i in range(goal.num_vars())]
            goal = z3.simplify(z3.substitute_vars(goal.body(), *reversed(vs)))
            continue
        if z3.is_implies(goal):
            extra_h.append(goal.arg(0))
            goal = goal.arg(1)
            continue
        if z3.is_or(goal) and any(_universal(c) for c in goal.children()):
            ch = []
            for c in goal.children():
                if z3.is_not(c):        # not exists
                    q = c.arg(0)
                    if _universal(c):
                        vs = [fresh(q.var_sort(i), 'sk') for i in range(q.num_vars())]
                        c = z3.Not(z3.substitute_vars(q.body(), *reversed(vs)))
                elif _universal(c):
                    vs = [fresh(c.var_sort(i), 'sk') for i in range(c.num_vars())]
                    c = z3.substitute_vars(c.body(), *reversed(vs))
                ch.append(c)
            goal = z3.simplify(z3.Or(*ch))
            continue
        if z3.is_or(goal) and sum(z3.is_and(c) for c in goal.children()) == 1:
            extra_h += [z3.Not(c) for c in goal.children() if not z3.is_and(c)]
            goal = next(c for c in goal.children() if z3.is_and(c))
        break
    if z3.is_and(goal) and (extra_h) and goal.num_args() <= 12:
        return prove(hyps + extra_h, goal, timeout, depth, want_model, second, split)
    hyps = hyps + extra_h
    base = list(hyps) + [z3.Not(goal)]
    ax = instantiate(base)
    nl = lin.nonlinear(base + ax)
    if nl and split:
        cs = split_goal(hyps, goal)
        if cs is not None:
            for lits, g in cs:
                p = prove(hyps + lits, g, timeout, depth, want_model, second, split=False)
                if p.status != 'proved':
                    break
            else:
                return Proof('proved', backend='z3 (opaque products)', time=time.time() - t0)
            if p.status == 'refuted' and p.exact:
                p.time = time.time() - t0
                return p
            p.time = time.time() - t0
            return p
    if nl:
        if any(t.decl().get_id() in GHOST for t in apps(base)):
            for k in (1, 2):
                if _lin_unsat(base + instantiate(base, 3, k), 2500):
                    return Proof('proved', backend='z3 (opaque products)', time=time.time() - t0)
        if _lin_unsat(base + ax, min(timeout, 5000)):
            return Proof('proved', backend='z3 (opaque products)', time=time.time() - t0)
    r, s = _solve(base + ax, min(timeout, 1500 if nl else 3000))
    if r == z3.unsat:
        return Proof('proved', time=time.time() - t0)
    lem = []
    if depth > 0:
        lem = reduction_lemmas(base + ax, hyps, depth, timeout)
        for _ in range(2):
            if lem:
                ax2 = instantiate(base + ax + lem)
                if nl and _lin_unsat(base + ax2 + lem, timeout):
                    return Proof('proved', backend='z3 (opaque products)+reduction lemmas', time=time.time() - t0)
                r, s = _solve(base + ax2 + lem, timeout)
                if r == z3.unsat:
                    return Proof('proved', backend='z3+reduction lemmas', time=time.time() - t0)
            break
    if r == z3.unknown and second:
        r2, s2 = _solve(base + ax + lem, timeout)
        if r2 == z3.unsat:
            return Proof('proved', time=time.time() - t0)
        if r2 == z3.unknown:
            c = cvc5_check(base + ax + lem, timeout)
            if c == 'unsat':
                return Proof('proved', backend='cvc5', time=time.time() - t0)
            return Proof('unknown', reason='z3: %s; cvc5: %s' % (s2.reason_unknown(), c), time=time.time() - t0)
        r, s = r2, s2
    if r == z3.sat:
        ops = red_ops()
        al = apps(base)
        exact = not any(t.decl().get_id() in ops or t.decl().get_id() in AX for t in al) and not any(has_quant(h) for h in base)
        return Proof('refuted', model=s.model(), time=time.time() - t0, exact=exact)
    return Proof('unknown', reason='z3: %s' % s.reason_unknown(), time=time.time() - t0)


def _lin_unsat(fs, timeout):
    try:
        l, keep = lin.linearise(fs)
    except lin.TooBig:
        return False
    return _solve(l, timeout)[0] == z3.unsat


def cvc5_check(fs, timeout):
    try:
        import subprocess, shutil
        s = z3.Solver()
        for f in fs:
            s.add(f)
        txt = '(set-logic HO_ALL)\n' + s.to_smt2()
        if not shutil.which('cvc5'):
            return 'absent'
        t0 = time.time()
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 10)
        STATS['solver_s'] += time.time() - t0
        o = p.stdout.strip().splitlines()
        return o[0] if o else 'error'
    except Exception as e:
        return 'error %s' % type(e).__name__


def forall(fn, *bounds, sort=INT):
    """universally quantified goal/assumption over fresh integers; bounds: (lo, hi) per variable, hi exclusive"""
    vs = [fresh(sort, 'q') for _ in bounds]
    rng = []
    for v, b in zip(vs, bounds):
        if b is not None:
            rng += [v >= numterm(b[0]), v < numterm(b[1])]
    body = boolterm(fn(*[S(v) for v in vs]))
    return S(z3.ForAll(vs, z3.Implies(z3.And(*rng), body) if rng else body))


def freeze(f):
    """f with the values its free variables have now (it is evaluated later here, at once in Python)"""
    import types
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f

    def cell(c):
        try:
            return types.CellType(c.cell_contents)
        except ValueError:
            return c
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cell(c) for c in f.__closure__))
    g.__kwdefaults__ = f.__kwdefaults__
    return g
