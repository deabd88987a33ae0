"""Arrays with symbolic shapes: a functional model of the numpy operations used by the code under contract.

Arr(shape, fn): fn maps indices (ints or S) to scalars. Basic slicing gives views (reads and writes go to the base), as in
numpy; everything else is a copy. An operation that is not modelled raises Unsupported (the obligation stays undecided).
"""
import types
import builtins, numbers
import numpy as np
import z3
import sym
from sym import S, Unsupported, ctx, lift, ite, And, Or, Not, Implies, sint, numterm, boolterm, reduce_term, fresh, INT, REAL, BOOL


class Dt:
    """dtype of a symbolic array"""
    def __init__(self, kind):
        self.kind = kind
        self.itemsize = 8

    @property
    def type(self):
        return {'f': np.float64, 'i': np.int64, 'b': np.bool_, 'O': np.object_}[self.kind]

    @property
    def name(self):
        return {'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[self.kind]

    def __eq__(self, o):
        try:
            return self.kind == dt_kind(o)
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return self.name

    __str__ = __repr__


def dt_kind(d):
    if isinstance(d, Dt):
        return d.kind
    if d is None:
        return None
    if d is float:
        return 'f'
    if d is int:
        return 'i'
    if d is bool:
        return 'b'
    if d is object:
        return 'O'
    try:
        k = np.dtype(d).kind
    except TypeError:
        raise Unsupported('dtype %r' % (d,))
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(k) or _uns('dtype %s' % d)


def _uns(m):
    raise Unsupported(m)


def cast(v, kind):
    if kind is None or kind == 'O':
        return v
    v = lift(v)
    if kind == 'f':
        return S(sym.real(numterm(v)), v.nan)
    if kind == 'i':
        return sym.trunc_int(v)
    if kind == 'b':
        return S(sym.truth(v))
    raise Unsupported('cast to %s' % kind)


def kind_of(v):
    if isinstance(v, Arr):
        return v.kind
    if isinstance(v, S):
        return 'b' if z3.is_bool(v.t) else 'i' if z3.is_int(v.t) else 'f' if z3.is_real(v.t) else 'O'
    if isinstance(v, np.ndarray):
        return dt_kind(v.dtype)
    if isinstance(v, (bool, np.bool_)):
        return 'b'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating)):
        return 'f'
    return 'O'


def implied(c):
    """True/False when the path condition decides c, else None (no fork)"""
    if isinstance(c, bool):
        return c
    t = z3.simplify(boolterm(c))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    C = ctx()
    if not C.feasible(z3.Not(t)):
        return True
    if not C.feasible(t):
        return False
    return None


def smin(a, b):
    r = implied(lift(a) <= lift(b)) if isinstance(a, S) or isinstance(b, S) else a <= b
    return a if r is True else b if r is False else ite(lift(a) <= b, a, b)


def smax(a, b):
    r = implied(lift(a) >= lift(b)) if isinstance(a, S) or isinstance(b, S) else a >= b
    return a if r is True else b if r is False else ite(lift(a) >= b, a, b)


def norm(v):
    """S with a concrete value -> Python number"""
    if isinstance(v, S):
        c = v.concrete()
        return v if c is None else c
    if isinstance(v, np.integer):
        return int(v)
    return v


def dim_same(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, S) and isinstance(b, S) and a.t.eq(b.t):
        return True
    return bool(lift(a) == lift(b))          # forks when the path does not decide it


def bdim(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if dim_same(a, b):
        return a if isinstance(a, int) else b
    if isinstance(a, S) and bool(a == 1):
        return b
    if isinstance(b, S) and bool(b == 1):
        return a
    raise ValueError('operands could not be broadcast together')


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = [1] * n
    for s in shapes:
        s = [1] * (n - len(s)) + list(s)
        out = [bdim(x, y) for x, y in zip(out, s)]
    return tuple(out)


def is_arr(x):
    return isinstance(x, Arr)


def chain(x):
    """index function of a concrete ndarray"""
    x = np.asarray(x)

    def fn(*idx):
        idx = [norm(i) for i in idx]
        if all(isinstance(i, (int, np.integer)) for i in idx):
            v = x[tuple(idx)]
            return v.item() if isinstance(v, np.generic) and v.dtype.kind in 'fiub' else v
        if x.size > 400:
            raise Unsupported('symbolic index into a large concrete array')
        k = next(p for p, i in enumerate(idx) if not isinstance(i, (int, np.integer)))
        r = None
        for q in range(x.shape[k] - 1, -1, -1):
            v = fn(*(idx[:k] + [q] + idx[k + 1:]))
            r = v if r is None else ite(idx[k] == q, v, r)
        if r is None:
            raise IndexError('index into an empty array')
        return r
    return fn


def as_arr(x):
    if isinstance(x, Arr):
        return x
    if hasattr(x, '__pydv_array__'):
        return x.__pydv_array__()
    if isinstance(x, S) or isinstance(x, numbers.Number) or isinstance(x, np.generic):
        v = x.item() if isinstance(x, np.generic) else x
        return Arr((), lambda: v, kind_of(x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'O':
            return Arr(x.shape, chain(x), 'O') if x.size and not any(isinstance(v, S) for v in x.ravel()) else Arr(x.shape, chain(x), 'f')
        if x.dtype.kind not in 'fiub':
            return Arr(x.shape, chain(x), 'O')
        return Arr(x.shape, chain(x), dt_kind(x.dtype))
    if isinstance(x, (list, tuple)):
        if not any(needs_sym(e) for e in x):
            return as_arr(np.array(x))
        return stack([as_arr(e) for e in x], 0)
    import pandas as pd
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        return as_arr(x.values)
    if hasattr(x, '__iter__') and hasattr(x, '__pydv_seq__'):
        return x.__pydv_seq__()
    raise Unsupported('array from %s' % type(x).__name__)


def needs_sym(e):
    """does the value contain symbolic parts?"""
    if isinstance(e, (S, Arr)) or hasattr(e, '__pydv_array__') or hasattr(e, '__pydv_sym__'):
        return True
    if isinstance(e, (list, tuple, set, frozenset)):
        return any(needs_sym(v) for v in e)
    if isinstance(e, dict):
        return any(needs_sym(v) or needs_sym(k) for k, v in e.items())
    if isinstance(e, slice):
        return any(needs_sym(v) for v in (e.start, e.stop, e.step))
    if isinstance(e, np.ndarray) and e.dtype.kind == 'O':
        return any(needs_sym(v) for v in e.ravel())
    return False


def elementwise(f, *args, kind=None):
    arrs = [as_arr(a) for a in args]
    shape = bshape(*[a.shape for a in arrs])
    reads = []
    for a in arrs:
        off = len(shape) - len(a.shape)
        snap = a.snapshot()
        ones = [isinstance(norm(d), int) and norm(d) == 1 and not (isinstance(norm(s), int) and norm(s) == 1) for d, s in zip(a.shape, shape[off:])]
        # a symbolic dimension that may be broadcast from one
        reads.append((snap, off, ones, a.shape))

    def fn(*idx):
        vals = []
        for snap, off, ones, _ in reads:
            vals.append(snap(*[0 if o else i for i, o in zip(idx[off:], ones)]))
        return f(*vals)
    r = Arr(shape, fn, kind)
    if kind is None:
        r.kind = r.probe_kind()
    return r if len(shape) else r.scalar()


class Arr:
    __pydv_array__ = None
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, shape, fn, kind=None, base=None, bmap=None, inv=None):
        self._shape = tuple(norm(s) for s in shape)
        self._fn, self._base, self._bmap, self._inv = fn, base, bmap, inv
        self.kind = kind if kind is not None else ('f' if base is None else base.kind)

    # ------------------------------------------------------------ reading
    def __pydv_array__(self):
        return self

    def read(self, *idx):
        if self._base is not None:
            return self._base.read(*self._bmap(*idx))
        return self._fn(*idx)

    def snapshot(self):
        if self._base is not None:
            b, m = self._base.snapshot(), self._bmap
            return lambda *idx: b(*m(*idx))
        return self._fn

    def probe_kind(self):
        try:
            v = self.read(*[S(fresh(INT, 'p')) if isinstance(s, S) else 0 for s in self._shape]) if all(isinstance(s, S) or s > 0 for s in self._shape) else 0.
        except (Unsupported, IndexError):
            return 'f'
        return kind_of(v)

    def scalar(self):
        return self.read()

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s
        return norm(r)

    @property
    def dtype(self):
        return Dt(self.kind)

    @property
    def values(self):
        return self

    @property
    def T(self):
        return transpose(self)

    def __pydv_len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, S):
            return n.__index__()
        return n

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self._shape):
            return bool(self.read(*[0] * self.ndim))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    def item(self):
        if all(isinstance(s, int) and s == 1 for s in self._shape):
            return self.read(*[0] * self.ndim)
        raise ValueError('item of a larger array')

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, S):
            raise Unsupported('iteration over an axis of symbolic length')
        return iter([self[i] for i in range(n)])

    def __repr__(self):
        return 'Arr%s' % (tuple(str(s) for s in self._shape),)

    def copy(self, *a, **k):
        return Arr(self._shape, self.snapshot(), self.kind)

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def astype(self, d, *a, **k):
        kd = dt_kind(d)
        return Arr(self._shape, (lambda f: lambda *i: cast(f(*i), kd))(self.snapshot()), kd)

    def view(self, *a):
        raise Unsupported('view')

    # ------------------------------------------------------------ operators
    def _b(op):
        def g(a, b):
            if isinstance(b, (type(None), str)):
                return op(a, b) if False else _strcmp(a, b)
            if hasattr(b, '__pydv_frame__') or hasattr(b, '__pydv_mat__'):
                return NotImplemented
            return elementwise(op, a, b)
        return g

    def _r(op):
        def g(a, b):
            if hasattr(b, '__pydv_frame__') or hasattr(b, '__pydv_mat__'):
                return NotImplemented
            return elementwise(lambda x, y: op(y, x), a, b)
        return g
    import operator as _o
    __add__, __radd__ = _b(lambda x, y: lift(x) + y), _r(lambda x, y: lift(x) + y)
    __sub__, __rsub__ = _b(lambda x, y: lift(x) - y), _r(lambda x, y: lift(x) - y)
    __mul__, __rmul__ = _b(lambda x, y: lift(x) * y), _r(lambda x, y: lift(x) * y)
    __truediv__, __rtruediv__ = _b(lambda x, y: lift(x) / y), _r(lambda x, y: lift(x) / y)
    __floordiv__, __rfloordiv__ = _b(lambda x, y: lift(x) // y), _r(lambda x, y: lift(x) // y)
    __mod__, __rmod__ = _b(lambda x, y: lift(x) % y), _r(lambda x, y: lift(x) % y)
    __pow__, __rpow__ = _b(lambda x, y: lift(x) ** y), _r(lambda x, y: lift(x) ** y)
    __lt__ = _b(lambda x, y: scmp('<', x, y))
    __le__ = _b(lambda x, y: scmp('<=', x, y))
    __gt__ = _b(lambda x, y: scmp('>', x, y))
    __ge__ = _b(lambda x, y: scmp('>=', x, y))
    __eq__ = _b(lambda x, y: scmp('==', x, y))
    __ne__ = _b(lambda x, y: scmp('!=', x, y))
    __and__, __rand__ = _b(lambda x, y: lift(x) & y), _r(lambda x, y: lift(x) & y)
    __or__, __ror__ = _b(lambda x, y: lift(x) | y), _r(lambda x, y: lift(x) | y)
    __xor__, __rxor__ = _b(lambda x, y: lift(x) ^ y), _r(lambda x, y: lift(x) ^ y)

    def __neg__(self): return elementwise(lambda x: -lift(x), self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(lambda x: abs(lift(x)), self)
    def __invert__(self): return elementwise(lambda x: ~lift(x), self)
    def __matmul__(self, o): return NotImplemented if type(o).__name__ == 'Transposed' else matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __iadd__(self, o): self[...] = self + o; return self
    def __isub__(self, o): self[...] = self - o; return self
    def __imul__(self, o): self[...] = self * o; return self
    def __itruediv__(self, o): self[...] = self / o; return self

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)

    # ------------------------------------------------------------ methods
    def sum(self, axis=None, keepdims=False, **k): return reduce(self, 'sum', axis, keepdims)
    def mean(self, axis=None, keepdims=False, **k): return reduce(self, 'mean', axis, keepdims)
    def std(self, axis=None, keepdims=False, ddof=0, **k): return sqrt_(self.var(axis, keepdims, ddof=ddof))

    def var(self, axis=None, keepdims=False, ddof=0, **k):
        m = reduce(self, 'mean', axis, True)
        d = (self - m)
        n = self.size if axis is None else self.shape[axis]
        return reduce(d * d, 'sum', axis, keepdims) / (n - ddof)

    def min(self, axis=None, keepdims=False, **k): return reduce(self, 'min', axis, keepdims)
    def max(self, axis=None, keepdims=False, **k): return reduce(self, 'max', axis, keepdims)
    def any(self, axis=None, keepdims=False, **k): return reduce(self, 'any', axis, keepdims)
    def all(self, axis=None, keepdims=False, **k): return reduce(self, 'all', axis, keepdims)
    def ravel(self, *a): return reshape(self, (-1,))
    def flatten(self, *a): return reshape(self, (-1,)).copy()

    def reshape(self, *s, order='C'):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = ax[0]
        return transpose(self, ax or None)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, ax)

    def squeeze(self, axis=None): return squeeze(self, axis)
    def dot(self, o): return matmul(self, o)
    def clip(self, a=None, b=None, min=None, max=None): return clip(self, a if a is not None else min, b if b is not None else max)
    def round(self, *a): return elementwise(lambda x: cast(sym.round_half_even(x), 'f'), self)
    def fill(self, v): self[...] = v
    def cumsum(self, axis=None): return cumsum(self, axis)
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def take(self, idx, axis=0): return getitem(self, (slice(None),) * axis + (idx,))
    def argmax(self, axis=None): return argx(self, axis, 'max')
    def argmin(self, axis=None): return argx(self, axis, 'min')
    def nonzero(self): return (flatnonzero(self),)


del Arr._b, Arr._r


def _strcmp(a, b):
    raise Unsupported('comparison of an array with %r' % (b,))


def scmp(op, x, y):
    if isinstance(x, (str, tuple)) or isinstance(y, (str, tuple)):
        return {'==': x == y, '!=': x != y}[op]
    r = sym.compare(op, x, y) if not isinstance(x, S) and not isinstance(y, S) else {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    if isinstance(r, (bool, np.bool_)):
        return bool(r)
    return r


# ---------------------------------------------------------------- indexing
INRANGE = [0]


def member(a, i):
    """a[i] for an index known to lie in range"""
    INRANGE[0] += 1
    try:
        return a[i]
    finally:
        INRANGE[0] -= 1


def norm_int(i, n):
    """index i of an axis of length n, checked"""
    i, n = norm(i), norm(n)
    if INRANGE[0] and isinstance(i, S):
        return i
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise IndexError('index %d is out of bounds for axis with size %d' % (i, n))
        return i % n if n else i
    if isinstance(i, int):
        if i >= 0:
            if not bool(n > i):
                raise IndexError('index %d out of bounds' % i)
            return i
        if not bool(n >= -i):
            raise IndexError('index %d out of bounds' % i)
        return n + i
    neg = implied(i < 0)
    if neg is None:
        neg = bool(i < 0)
    if neg:
        if not bool(i >= -lift(n)):
            raise IndexError('symbolic index out of bounds')
        return i + n
    if not bool(i < n):
        raise IndexError('symbolic index out of bounds')
    return i


def norm_slice(s, n):
    """(start, length, step) of a slice over an axis of length n"""
    step = norm(s.step) if s.step is not None else 1
    if isinstance(step, S) or step == 0:
        raise Unsupported('slice step')
    start, stop, n = norm(s.start), norm(s.stop), norm(n)
    if step > 0:
        def cl(v):
            v = norm(v)
            if isinstance(v, int) and isinstance(n, int):
                return min(max(v + n, 0), n) if v < 0 else min(v, n)
            neg = implied(lift(v) < 0)
            if neg is True:
                return smax(v + n, 0)
            if neg is False:
                return smin(v, n)
            return ite(lift(v) < 0, smax(lift(v) + n, 0), smin(v, n))
        a = 0 if start is None else cl(start)
        b = n if stop is None else cl(stop)
        d = norm(lift(b) - a) if isinstance(a, S) or isinstance(b, S) else b - a
        if isinstance(d, int):
            ln = max(0, -(-d // step))
        else:
            ln = smax(d, 0) if step == 1 else smax((d + (step - 1)) // step, 0)
        return a, norm(ln), step
    if start is None and stop is None:
        if step == -1:
            return n - 1, n, -1
        ln = (n + (-step - 1)) // (-step)
        return n - 1, norm(ln), step
    if isinstance(n, int) and not isinstance(start, S) and not isinstance(stop, S):
        r = range(*slice(start, stop, step).indices(n))
        return r.start, len(r), step
    raise Unsupported('backward slice with symbolic bounds')


def is_bool_key(k):
    return (isinstance(k, Arr) and k.kind == 'b') or (isinstance(k, np.ndarray) and k.dtype.kind == 'b') or \
        (isinstance(k, list) and len(k) > 0 and all(isinstance(v, (bool, np.bool_)) for v in k))


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [as_arr(k) if hasattr(k, '__pydv_array__') else (np.asarray(k) if isinstance(k, (list,)) and not needs_sym(k) else as_arr(k) if isinstance(k, list) else k) for k in key]
    key = [k.scalar() if isinstance(k, Arr) and k.ndim == 0 else k.item() if isinstance(k, np.ndarray) and k.ndim == 0 else k for k in key]
    import pandas as pd
    key = [np.asarray(k) if isinstance(k, (pd.Series, pd.Index)) else k for k in key]

    def used(k):
        if k is None:
            return 0
        if is_bool_key(k):
            return k.ndim
        return 1
    if any(k is Ellipsis for k in key):
        p = next(i for i, k in enumerate(key) if k is Ellipsis)
        rest = key[:p] + key[p + 1:]
        n = a.ndim - sum(used(k) for k in rest)
        key = key[:p] + [slice(None)] * n + key[p + 1:]
    n = a.ndim - sum(used(k) for k in key)
    if n < 0:
        raise IndexError('too many indices for array')
    return key + [slice(None)] * n


def sel_map(mask, n):
    """members of a boolean axis: (count, position function)"""
    snap = mask.snapshot()
    j = fresh(INT, 'm')
    nt = numterm(n)
    body = z3.simplify(boolterm(snap(S(j))))
    if z3.is_true(body):
        return n, lambda k: k
    lam = sym.close(j, body)
    cnt = S(sym._count(j, nt, body))
    C = ctx()
    C.assume(cnt.t >= 0)
    C.assume(cnt.t <= nt)
    return norm(cnt), lambda k: S(sym.SEL(lam, nt, numterm(k)))


def getitem(a, key):
    key = expand_key(a, key)
    fancy = [k for k in key if isinstance(k, (Arr, np.ndarray))]
    if not fancy:
        # basic indexing: a view
        shape, src, ax = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                src.append(('new',))
            elif isinstance(k, slice):
                st, ln, step = norm_slice(k, a.shape[ax])
                shape.append(ln)
                src.append(('slice', st, step))
                ax += 1
            elif isinstance(k, (int, np.integer, S)) and not isinstance(k, (bool, np.bool_)):
                src.append(('int', norm_int(k, a.shape[ax])))
                ax += 1
            else:
                raise Unsupported('index of type %s' % type(k).__name__)

        def bmap(*idx):
            out, p = [], 0
            for s in src:
                if s[0] == 'new':
                    p += 1
                elif s[0] == 'slice':
                    i = idx[p]
                    p += 1
                    out.append(norm(i * s[2] + s[1]) if not (s[2] == 1 and isinstance(s[1], int) and s[1] == 0) else i)
                else:
                    out.append(s[1])
            return out

        def inv(*bidx):
            conds, out = [], []
            q, p = 0, 0
            for s in src:
                if s[0] == 'new':
                    out.append(0)
                    p += 1
                    continue
                b = bidx[q]
                q += 1
                if s[0] == 'int':
                    conds.append(lift(b) == s[1])
                else:
                    d = lift(b) - s[1]
                    if s[2] == 1:
                        i = d
                    elif s[2] == -1:
                        i = -d
                    else:
                        i = d // s[2]
                        conds.append(d % s[2] == 0)
                    conds.append(And(i >= 0, i < shape[p]))
                    out.append(norm(i))
                    p += 1
            return (And(*conds) if conds else S(z3.BoolVal(True))), out
        r = Arr(tuple(shape), None, a.kind, base=a, bmap=bmap, inv=inv)
        return r if shape else r.scalar()
    snap = a.snapshot()
    # boolean mask over several axes at once
    if any(is_bool_key(k) and k.ndim > 1 for k in key):
        raise Unsupported('selection by a multi-dimensional mask')
    # advanced indexing: masks become position vectors
    parts, ax = [], 0
    for k in key:
        if k is None:
            parts.append(('new', None))
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            parts.append(('slice', norm_slice(k, n)))
        elif is_bool_key(k):
            k = as_arr(k)
            if not dim_same(k.shape[0], n):
                raise IndexError('boolean index did not match')
            if isinstance(norm(n), int) and isinstance(k, Arr) and all(isinstance(lift(k.read(i)).concrete(), bool) for i in range(n)):
                pos = np.array([i for i in range(n) if lift(k.read(i)).concrete()], dtype=int)
                parts.append(('fancy', as_arr(pos)))
            else:
                cnt, f = sel_map(k, n)
                parts.append(('fancy', Arr((cnt,), f, 'i')))
        elif isinstance(k, (Arr, np.ndarray)):
            k = as_arr(k)
            if k.kind not in 'i':
                if k.size == 0:
                    parts.append(('fancy', Arr(k.shape, lambda *i: 0, 'i')))
                    ax += 1
                    continue
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            parts.append(('fancy', wrap_index(k, n)))
        else:
            parts.append(('int', norm_int(k, n)))
        ax += 1
    fpos = [i for i, p in enumerate(parts) if p[0] in ('fancy', 'int')]
    farr = [p[1] for p in parts if p[0] == 'fancy']
    fshape = bshape(*[f.shape for f in farr])
    fsn = [(f.snapshot(), f.shape) for f in farr]
    contiguous = all(fpos[i] + 1 == fpos[i + 1] for i in range(len(fpos) - 1))
    shape, where = [], None
    for i, p in enumerate(parts):
        if p[0] == 'new':
            shape.append(1)
        elif p[0] == 'slice':
            shape.append(p[1][1])
        elif where is None and contiguous:
            where = len(shape)
            shape += list(fshape)
    if not contiguous:
        where = 0
        shape = list(fshape) + shape
    nf = len(fshape)

    def fn(*idx):
        fi = idx[where:where + nf]
        rest = list(idx[:where]) + list(idx[where + nf:])
        out, r, f = [], 0, 0
        for p in parts:
            if p[0] == 'new':
                r += 1
            elif p[0] == 'slice':
                st, _, step = p[1]
                out.append(norm(rest[r] * step + st))
                r += 1
            elif p[0] == 'int':
                out.append(p[1])
            else:
                sn, sh = fsn[f]
                off = nf - len(sh)
                out.append(norm(sn(*[0 if (isinstance(d, int) and d == 1) else i for i, d in zip(fi[off:], sh)])))
                f += 1
        return snap(*out)
    return Arr(tuple(shape), fn, a.kind)


def wrap_index(k, n):
    """index vector with in-range check and wrapping of negatives"""
    snap = k.snapshot()
    if all(isinstance(d, int) for d in k.shape) and k.size <= 64:
        vals = {}
        for i in np.ndindex(*k.shape):
            vals[i] = norm_int(snap(*i), n)

        def f(*idx):
            if all(isinstance(norm(i), int) for i in idx):
                return vals[tuple(norm(i) for i in idx)]
            v = snap(*idx)
            return ite(lift(v) < 0, lift(v) + n, v)
        return Arr(k.shape, f, 'i')
    js = [S(fresh(INT, 'w')) for _ in k.shape]
    rng = [And(j >= 0, j < d) for j, d in zip(js, k.shape)]
    v = lift(snap(*js))
    ok = z3.ForAll([j.t for j in js], z3.Implies(boolterm(And(*rng)), boolterm(And(v >= -lift(n), v < n))))
    C = ctx()
    hyp = list(C.path)
    p = sym.prove(hyp, S(ok), timeout=4000, want_model=False)
    if p.status != 'proved':
        C.inexact = True
        C.notes.add('an index vector could not be shown to be in range')
        raise Unsupported('index vector possibly out of range')
    nonneg = sym.prove(hyp + [boolterm(And(*rng))], v >= 0, timeout=2000, want_model=False)
    if nonneg.status == 'proved':
        return k
    return Arr(k.shape, lambda *i: ite(lift(snap(*i)) < 0, lift(snap(*i)) + n, snap(*i)), 'i')


def setitem(a, key, v):
    key = expand_key(a, key)
    C = ctx() if sym.Ctx.cur else None
    # target coordinates as a view-like inverse map
    vshape, src, ax = [], [], 0
    nf = sum(isinstance(k, (Arr, np.ndarray)) for k in key)
    if any(is_bool_key(k) and k.ndim > 1 for k in key):
        if len([k for k in key if not isinstance(k, slice)]) != 1 or not is_bool_key(key[0]) or key[0].ndim != a.ndim:
            raise Unsupported('assignment through a mixed multi-dimensional mask')
        va = as_arr(v)
        if va.ndim:
            raise Unsupported('assignment of an array through a multi-dimensional mask')
        m, val = as_arr(key[0]).snapshot(), va.scalar()
        write(a, lambda *b: boolterm(m(*b)), lambda *b: val)
        return
    fancy_dims = []
    for k in key:
        if k is None:
            raise Unsupported('assignment through a new axis')
        n = a.shape[ax]
        if isinstance(k, slice):
            st, ln, step = norm_slice(k, n)
            vshape.append(ln)
            src.append(('slice', st, step, ln))
        elif is_bool_key(k):
            k = as_arr(k)
            if not dim_same(k.shape[0], n):
                raise IndexError('boolean index did not match')
            if nf > 1:
                raise Unsupported('assignment through several index arrays')
            sn = k.snapshot()
            j = fresh(INT, 'm')
            body = z3.simplify(boolterm(sn(S(j))))
            lam = sym.close(j, body)
            cnt = S(sym._count(j, numterm(n), body))
            C.assume(cnt.t >= 0)
            vshape.append(norm(cnt))
            src.append(('mask', sn, lam, numterm(n)))
        elif isinstance(k, (Arr, np.ndarray)):
            k = as_arr(k)
            if nf > 1 and not all(isinstance(d, int) for d in k.shape):
                raise Unsupported('assignment through several index arrays')
            if k.ndim != 1:
                raise Unsupported('assignment through a multi-dimensional index array')
            if isinstance(k.shape[0], S) or k.shape[0] > 64:
                raise Unsupported('assignment through an index vector of symbolic length')
            vals = [norm_int(k.read(i), n) for i in range(k.shape[0])]
            vshape.append(len(vals))
            src.append(('list', vals))
            fancy_dims.append(len(vshape) - 1)
        else:
            src.append(('int', norm_int(k, n)))
        ax += 1
    if nf > 1:
        raise Unsupported('assignment through several index arrays')
    va = as_arr(v)
    if len(va.shape) > len(vshape):
        lead = va.shape[:len(va.shape) - len(vshape)]
        if not all(isinstance(d, int) and d == 1 for d in lead):
            raise ValueError('could not broadcast input array')
        va = reshape_drop(va, len(lead))
    # numpy checks that the value broadcasts to the target
    off = len(vshape) - len(va.shape)
    bc = []
    for d, t in zip(va.shape, vshape[off:]):
        d, t = norm(d), norm(t)
        if isinstance(d, int) and d == 1:
            bc.append(True)
            continue
        if not dim_same(d, t):
            if not bool(lift(d) == 1):
                raise ValueError('could not broadcast input array into shape')
            bc.append(True)
            continue
        bc.append(False)
    vs = va.snapshot()
    kind = a.kind
    lists = [s for s in src if s[0] == 'list']

    def target(b):
        conds, out = [], []
        for s, x in zip(src, b):
            x = lift(x)
            if s[0] == 'int':
                conds.append(x == s[1])
            elif s[0] == 'slice':
                d = x - s[1]
                if s[2] == 1:
                    i = d
                elif s[2] == -1:
                    i = -d
                else:
                    i = d // s[2]
                    conds.append(d % s[2] == 0)
                conds.append(And(i >= 0, i < s[3]))
                out.append(norm(i))
            elif s[0] == 'mask':
                conds.append(S(boolterm(s[1](x))))
                out.append(S(sym.RANK(s[2], s[3], numterm(x))))
            else:
                conds.append(Or(*[x == q for q in s[1]]) if s[1] else S(z3.BoolVal(False)))
                pos = 0
                for p, q in enumerate(s[1]):
                    pos = p if p == 0 else ite(x == q, p, pos)        # the last write wins
                out.append(norm(pos))
        return And(*conds), out

    def cond(*b):
        return boolterm(target(b)[0])

    def val(*b):
        out = target(b)[1]
        return vs(*[0 if o else i for i, o in zip(out[off:], bc)])
    write(a, cond, val)


def reshape_drop(a, n):
    sn = a.snapshot()
    return Arr(a.shape[n:], lambda *i: sn(*([0] * n + list(i))), a.kind)


def write(a, cond, val):
    """a[b] = val(b) where cond(b), for every index vector b of a"""
    if a._base is not None:
        inv = a._inv
        if inv is None:
            raise Unsupported('write through a view that is not a slice')
        base = a._base

        def c2(*b):
            c, i = inv(*b)
            return z3.And(boolterm(c), cond(*i))
        return write(base, c2, lambda *b: val(*inv(*b)[1]))
    if getattr(a, 'readonly', False):
        raise ValueError('assignment destination is read-only')
    old, kind = a._fn, a.kind

    def fn(*b):
        c = z3.simplify(cond(*b))
        if z3.is_false(c):
            return old(*b)
        v = val(*b)
        if kind in 'ib':
            v = cast(v, kind)
        if z3.is_true(c):
            return v
        return ite(S(c), v, old(*b))
    a._fn = fn
    log = getattr(a, 'writes', None)
    if log is not None:
        log.append(1)


# ---------------------------------------------------------------- structure
def transpose(a, axes=None):
    a = as_arr(a)
    n = a.ndim
    axes = list(range(n))[::-1] if axes is None else [x % n for x in axes]
    inv_ax = [axes.index(i) for i in range(n)]

    def bmap(*idx):
        return [idx[inv_ax[i]] for i in range(n)]

    def inv(*b):
        return S(z3.BoolVal(True)), [b[axes[i]] for i in range(n)]
    return Arr([a.shape[x] for x in axes], None, a.kind, base=a, bmap=bmap, inv=inv)


def prod(l):
    r = 1
    for x in l:
        r = r * x
    return norm(r)


def factors(d):
    """a size as a list of factors"""
    if isinstance(d, S):
        t = z3.simplify(d.t)
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            return [f for c in t.children() for f in factors(norm(S(c)))]
        return [norm(S(t))]
    return [d]


def reshape(a, shape):
    a = as_arr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = [norm(s) for s in shape]
    old = a.shape
    if len(shape) != len(old) and sym.Ctx.cur is not None and any(isinstance(d, S) for d in list(old) + shape):
        one = lambda d: 1 if isinstance(d, S) and implied(d == 1) else d
        old, shape = [one(d) for d in old], [one(d) for d in shape]
    if isinstance(shape, list) and any(isinstance(s, int) and s == -1 for s in shape):
        p = next(i for i, s in enumerate(shape) if isinstance(s, int) and s == -1)
        others = shape[:p] + shape[p + 1:]
        # cancel common factors structurally first
        rest = [f for d in old for f in factors(d)]
        for o in [f for d in others for f in factors(d)]:
            hit = next((k for k, d in enumerate(rest) if (isinstance(d, int) and isinstance(o, int) and d == o and d != 0) or (isinstance(d, S) and isinstance(o, S) and d.t.eq(o.t))), None)
            if hit is not None:
                rest.pop(hit)
            elif isinstance(o, int) and o == 1:
                pass
            else:
                q = next((k for k, d in enumerate(rest) if isinstance(d, int) and isinstance(o, int) and o and d % o == 0), None)
                if q is not None:
                    rest[q] //= o
                    continue
                t, m = prod(old), prod(others)
                if isinstance(t, int) and isinstance(m, int):
                    rest = [t // m]
                    break
                rest = None
                break
        if rest is None:
            raise Unsupported('reshape to an unknown symbolic size')
        shape[p] = prod(rest)
    else:
        t, m = prod(old), prod(shape)
        if isinstance(t, S) or isinstance(m, S):
            if not bool(lift(t) == m):
                raise ValueError('cannot reshape array')
        elif t != m:
            raise ValueError('cannot reshape array of size %s into shape %s' % (t, shape))
    shape = tuple(norm(s) for s in shape)
    # inserting/removing axes of length one: a view
    core = [(i, d) for i, d in enumerate(old) if not (isinstance(d, int) and d == 1)]
    core2 = [(i, d) for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(core) == len(core2) and all((isinstance(x, int) and isinstance(y, int) and x == y) or (isinstance(x, S) and isinstance(y, S) and x.t.eq(y.t)) for (_, x), (_, y) in zip(core, core2)):
        def bmap(*idx):
            out = [0] * len(a.shape)
            for (i, _), (k, _) in zip(core, core2):
                out[i] = idx[k]
            return out

        def inv(*b):
            out = [0] * len(shape)
            for (i, _), (k, _) in zip(core, core2):
                out[k] = b[i]
            return S(z3.BoolVal(True)), out
        return Arr(shape, None, a.kind, base=a, bmap=bmap, inv=inv)
    # general case (copy): row-major position

    def flat(idx, sh):
        p = 0
        for i, d in zip(idx, sh):
            p = p * d + i
        return p

    def unflat(p, sh):
        out = []
        for k in range(len(sh) - 1, 0, -1):
            out.append(norm(lift(p) % sh[k]) if isinstance(p, S) or isinstance(sh[k], S) else p % sh[k])
            p = norm(lift(p) // sh[k]) if isinstance(p, S) or isinstance(sh[k], S) else p // sh[k]
        out.append(p)
        return out[::-1]
    # split of leading/trailing common axes keeps indices simple
    pre = 0
    same = lambda x, y: (isinstance(x, int) and isinstance(y, int) and x == y) or (isinstance(x, S) and isinstance(y, S) and x.t.eq(y.t))
    while pre < min(len(old), len(shape)) and same(old[pre], shape[pre]):
        pre += 1
    post = 0
    while post < min(len(old), len(shape)) - pre and same(old[-1 - post], shape[-1 - post]):
        post += 1
    o_mid, n_mid = old[pre:len(old) - post], shape[pre:len(shape) - post]
    sn = a.snapshot()

    def fn(*idx):
        mid = idx[pre:len(shape) - post]
        p = norm(flat(mid, n_mid))
        out = unflat(p, o_mid) if o_mid else []
        return sn(*(list(idx[:pre]) + out + list(idx[len(shape) - post:])))
    return Arr(shape, fn, a.kind)


def squeeze(a, axis=None):
    a = as_arr(a)
    if axis is None:
        drop = [i for i, d in enumerate(a.shape) if (isinstance(d, int) and d == 1) or (isinstance(d, S) and bool(d == 1))]
    else:
        ax = axis if isinstance(axis, tuple) else (axis,)
        drop = [x % a.ndim for x in ax]
        for x in drop:
            if not bool(lift(a.shape[x]) == 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    r = getitem(a, tuple(0 if i in drop else slice(None) for i in range(a.ndim)))
    return r


def expand_dims(a, axis):
    a = as_arr(a)
    axes = axis if isinstance(axis, tuple) else (axis,)
    n = a.ndim + len(axes)
    axes = {x % n for x in axes}
    return getitem(a, tuple(None if i in axes else slice(None) for i in range(n)))


def stack(arrs, axis=0):
    q = sym_seq(arrs)
    if q:
        n = q[2].ndim + 1
        ex = lambda a: expand_dims(a, axis % n)
        return concat_seq(q[0], q[1], ex(q[2]), axis % n, ex)
    arrs = [as_arr(a) for a in arrs]
    n = arrs[0].ndim + 1
    return concatenate([expand_dims(a, axis % n) for a in arrs], axis % n)


def join_kind(ks):
    ks = set(ks)
    if 'O' in ks:
        return 'O'
    if 'f' in ks:
        return 'f'
    if 'i' in ks:
        return 'i'
    return 'b' if ks else 'f'


def concatenate(arrs, axis=0):
    if hasattr(arrs, '__pydv_seq__'):
        arrs = arrs.__pydv_list__()
    q = sym_seq(arrs) if not isinstance(arrs, (list, tuple)) else None
    if q:
        return concat_seq(q[0], q[1], q[2], axis)
    arrs = [as_arr(a) for a in arrs]
    if not arrs:
        raise ValueError('need at least one array to concatenate')
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match')
    axis = axis % nd
    for d in range(nd):
        if d != axis:
            for a in arrs[1:]:
                if not dim_same(a.shape[d], arrs[0].shape[d]):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs, o = [], 0
    for a in arrs:
        offs.append(o)
        o = norm(o + a.shape[axis])
    snaps = [a.snapshot() for a in arrs]
    lens = [a.shape[axis] for a in arrs]

    def fn(*idx):
        i = idx[axis]
        if isinstance(norm(i), int) and all(isinstance(x, int) for x in offs + [norm(o)]):
            i = norm(i)
            for s, of, ln in zip(snaps, offs, lens):
                if of <= i < of + ln:
                    return s(*(idx[:axis] + (i - of,) + idx[axis + 1:]))
            raise IndexError('concatenated index')
        r = None
        for s, of, ln in reversed(list(zip(snaps, offs, lens))):
            if isinstance(ln, int) and ln == 0:
                continue
            at = norm(lift(i) - of)
            if r is None:
                r = s(*(idx[:axis] + (at,) + idx[axis + 1:]))
                continue
            c = z3.simplify(boolterm(lift(i) < lift(of) + ln))
            if z3.is_false(c):
                continue
            v = s(*(idx[:axis] + (at,) + idx[axis + 1:]))
            r = v if z3.is_true(c) else ite(S(c), v, r)
        return r
    shape = list(arrs[0].shape)
    shape[axis] = o
    return Arr(shape, fn, join_kind(a.kind for a in arrs))


def atleast_1d(a):
    a = as_arr(a)
    return a if a.ndim else reshape(Arr((1,), lambda i: a.scalar(), a.kind), (1,))


def atleast_2d(a):
    a = atleast_1d(a)
    return a if a.ndim > 1 else expand_dims(a, 0)


def hstack(l):
    q = sym_seq(l)
    if q:
        e = atleast_1d(q[2])
        return concat_seq(q[0], q[1], e, 0 if e.ndim == 1 else 1, atleast_1d)
    l = [atleast_1d(a) for a in _list(l)]
    return concatenate(l, 0 if l[0].ndim == 1 else 1)


def vstack(l):
    q = sym_seq(l)
    if q:
        return concat_seq(q[0], q[1], atleast_2d(q[2]), 0, atleast_2d)
    return concatenate([atleast_2d(a) for a in _list(l)], 0)


def dstack(l):
    o = []
    for a in _list(l):
        a = as_arr(a)
        if a.ndim == 1:
            a = a[None, :, None]
        elif a.ndim == 2:
            a = a[:, :, None]
        o.append(a)
    return concatenate(o, 2)


def sym_seq(l):
    """(length, element function, an example element) of a sequence of symbolic length whose elements all have the shape of the example"""
    if isinstance(l, Arr) and l.ndim and isinstance(norm(l.shape[0]), S):
        # the rows of an array
        s = l.snapshot()
        l = types.SimpleNamespace(n=l.shape[0], fn=lambda i, sh=l.shape[1:], kd=l.kind: Arr(sh, lambda *j: s(i, *j), kd))
    n = getattr(l, 'n', None)
    if not hasattr(l, 'fn') or not isinstance(norm(n), S):
        return None
    p = fresh(INT, 'p')
    e = as_arr(l.fn(S(p)))
    for d in e.shape:
        d = norm(d)
        if isinstance(d, S) and any(x.eq(p) for x in z3util_vars(d.t)):
            raise Unsupported('joining arrays of different sizes')
    return norm(n), l.fn, e


def z3util_vars(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def concat_seq(n, fn, e, axis, prep=lambda a: a):
    axis = axis % e.ndim
    w = norm(e.shape[axis])

    def at(*idx):
        i = idx[axis]
        if isinstance(w, int) and w == 1:
            q, r = i, 0
        else:
            q, r = norm(lift(i) // w), norm(lift(i) % w)
        return prep(as_arr(fn(q))).read(*(idx[:axis] + (r,) + idx[axis + 1:]))
    shape = list(e.shape)
    shape[axis] = norm(lift(n) * w)
    return Arr(shape, at, e.kind)


def _list(l):
    return l.__pydv_list__() if hasattr(l, '__pydv_list__') else list(l)


def tile(a, reps):
    a = as_arr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    while a.ndim < len(reps):
        a = expand_dims(a, 0)
    reps = [1] * (a.ndim - len(reps)) + reps
    sn, sh = a.snapshot(), a.shape
    out = [norm(d * r) for d, r in zip(sh, reps)]

    def fn(*idx):
        return sn(*[i if (isinstance(norm(r), int) and norm(r) == 1) else 0 if (isinstance(d, int) and d == 1) else norm(lift(i) % d) for i, d, r in zip(idx, sh, reps)])
    return Arr(out, fn, a.kind)


def repeat(a, n, axis=None):
    a = as_arr(a)
    if axis is None:
        a, axis = reshape(a, (-1,)), 0
    if isinstance(n, (Arr, np.ndarray, list)):
        raise Unsupported('repeat by a vector')
    sn = a.snapshot()
    sh = list(a.shape)
    sh[axis] = norm(sh[axis] * n)
    return Arr(sh, lambda *i: sn(*(i[:axis] + (norm(lift(i[axis]) // n),) + i[axis + 1:])), a.kind)


def roll(a, shift, axis=None):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll of a flattened array')
        axis = 0
    sn, n = a.snapshot(), a.shape[axis]

    def fn(*i):
        q = lift(i[axis]) - shift
        # |shift| <= n in the usual case keeps the arithmetic linear
        if implied(And(lift(shift) >= -lift(n), lift(shift) <= n)) is True:
            q = ite(q < 0, q + n, ite(q >= n, q - n, q))
        else:
            q = q % n
        return sn(*(i[:axis] + (norm(q),) + i[axis + 1:]))
    return Arr(a.shape, fn, a.kind)


def arange(*a, dtype=None):
    a = [norm(x) for x in a]
    if len(a) == 1:
        st, sp, step = 0, a[0], 1
    elif len(a) == 2:
        st, sp, step = a[0], a[1], 1
    else:
        st, sp, step = a
    st, sp = lift(st), lift(sp)
    if isinstance(step, S):
        raise Unsupported('arange with a symbolic step')
    d = sp - st
    if not z3.is_int(d.t) or not isinstance(step, int):
        n = sym.trunc_int(sym.ceil(d / step))
    else:
        n = d if step == 1 else (d + (step - 1)) // step if step > 0 else (-d + (-step - 1)) // (-step)
    n = smax(n, 0)
    k = dt_kind(dtype) or kind_of(st * step)
    return Arr((n,), lambda i: st + lift(i) * step, k)


def linspace(a, b, n):
    a, b = lift(a), lift(b)
    n = norm(n)
    if isinstance(n, int) and n == 1:
        return Arr((1,), lambda i: S(sym.real(numterm(a))), 'f')
    return Arr((n,), lambda i: a + (b - a) * S(sym.real(numterm(i))) / (lift(n) - 1), 'f')


def full(shape, v, kind=None):
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    shape = [s.scalar() if isinstance(s, Arr) else s for s in shape]
    va = as_arr(v)
    kind = kind or va.kind
    if va.ndim == 0:
        c = va.scalar()
        return Arr(shape, lambda *i: cast(c, kind) if kind in 'fib' else c, kind)
    r = Arr(shape, lambda *i: 0, kind)
    r[...] = va
    return r


UNIQ = z3.Function('uniq', sym.ARR_I, INT, INT, INT)     # k-th smallest distinct value of a[0..n)
UCNT = z3.Function('ucnt', sym.ARR_I, INT, INT)          # number of distinct values
UFST = z3.Function('ufst', sym.ARR_I, INT, INT, INT)     # a position where the k-th value occurs
UPOS = z3.Function('upos', sym.ARR_I, INT, INT, INT)     # which distinct value sits at position i


@sym.axiom(UNIQ)
def _(t):
    l, n, k = t.children()
    p = UFST(l, n, k)
    return [z3.Implies(z3.And(k >= 0, k < UCNT(l, n)), z3.And(p >= 0, p < n, z3.Select(l, p) == t, UPOS(l, n, p) == k))]


@sym.axiom(UPOS)
def _(t):
    l, n, i = t.children()
    return [z3.Implies(z3.And(i >= 0, i < n), z3.And(t >= 0, t < UCNT(l, n), UNIQ(l, n, t) == z3.Select(l, i)))]


@sym.axiom(UCNT)
def _(t):
    l, n = t.children()
    return [t >= 0, z3.Implies(n >= 0, t <= n), z3.Implies(n >= 1, t >= 1)]


def _uniq_pairs(prs):
    out = []
    for a, b in prs:
        if a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)):
            x, y, c = a.arg(2), b.arg(2), UCNT(a.arg(0), a.arg(1))
            out.append(z3.Implies(z3.And(x >= 0, y >= 0, x < c, y < c), z3.And((x < y) == (a < b), (x == y) == (a == b))))
    return out


sym.FACTS[UNIQ.get_id()] = [_uniq_pairs]
_KEEP = [UNIQ, UCNT, UFST, UPOS]
sym.WITNESS.append(UFST.get_id())
sym.DEEP.update((UNIQ.get_id(), UPOS.get_id()))


def unique_parts(a):
    a = as_arr(a)
    if a.ndim != 1:
        a = reshape(a, (-1,))
    n, sn = a.shape[0], a.snapshot()
    j = fresh(INT, 'u')
    v = lift(sn(S(j)))
    if not z3.is_int(v.t):
        raise Unsupported('distinct values of a symbolic array that does not hold integers')
    lam = sym.close(j, z3.simplify(v.t))
    nt = numterm(n)
    cnt = S(UCNT(lam, nt))
    ctx().assume(cnt.t >= 0)
    ctx().assume(z3.Implies(nt >= 1, cnt.t >= 1))
    ctx().assume(z3.Implies(nt >= 0, cnt.t <= nt))
    return lam, nt, cnt, a.shape[0]


def unique(a, return_inverse=False):
    lam, nt, cnt, n = unique_parts(a)
    u = Arr((cnt,), lambda k: S(UNIQ(lam, nt, numterm(k))), 'i')
    if return_inverse:
        return u, Arr((n,), lambda i: S(UPOS(lam, nt, numterm(i))), 'i')
    return u


def unique_ordered(a):
    raise Unsupported('distinct values in order of appearance')


def find(n, key, label):
    """position of a label among key(0..n): (present, position)"""
    j = fresh(INT, 'f')
    m = z3.simplify(boolterm(lift(key(S(j))) == label))
    lam, nt = sym.close(j, m), numterm(n)
    return S(sym.COUNT(lam, nt) > 0), S(sym.SEL(lam, nt, z3.IntVal(0)))


class SymSet:
    """the set of the values of a symbolic array"""
    __pydv_sym__ = True

    def __init__(self, n, fn, has, keep=None):
        self.n, self.fn, self.has, self.keep = n, fn, has, keep or (lambda i: True)

    @staticmethod
    def of(x):
        if isinstance(x, SymSet):
            return x
        if isinstance(x, (set, frozenset)):
            x = list(x)
        a = as_arr(x)
        if a.ndim != 1:
            raise Unsupported('set of an array of more than one dimension')
        n, sn = a.shape[0], a.snapshot()
        return SymSet(n, sn, getattr(a, 'member', None) or (lambda v: find(n, sn, v)[0]))

    def __sub__(self, o):
        o = SymSet.of(o)
        k, h, oh = self.keep, self.has, o.has
        return SymSet(self.n, self.fn, lambda v: And(h(v), Not(oh(v))), lambda i: And(k(i), Not(oh(self.fn(i)))))

    def __and__(self, o):
        o = SymSet.of(o)
        k, h, oh = self.keep, self.has, o.has
        return SymSet(self.n, self.fn, lambda v: And(h(v), oh(v)), lambda i: And(k(i), oh(self.fn(i))))

    def difference(self, o): return self - o
    def intersection(self, o): return self & o
    def __bool__(self): return bool(quant('any', self.n, lambda i: self.keep(i)))
    def __le__(self, o): return Not(quant('any', self.n, lambda i: (self - o).keep(i)))
    def issubset(self, o): return self <= o
    def __contains__(self, v): return bool(self.has(lift(v)))
    def __str__(self): return '{...}'
    __repr__ = __str__


def where(c, *ab):
    if not ab:
        return (flatnonzero(c),)
    a, b = ab
    return elementwise(lambda x, y, z: ite(S(boolterm(x)), y, z), c, a, b)


def flatnonzero(c):
    c = as_arr(c)
    if c.ndim != 1:
        raise Unsupported('nonzero of a matrix')
    n = c.shape[0]
    sn = c.snapshot()
    cnt, f = sel_map(Arr((n,), lambda i: S(sym.truth(sn(i))), 'b'), n)
    return Arr((cnt,), f, 'i')


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def _nan_of(*v):
    n = None
    for x in v:
        n = sym._or(n, lift(x).nan)
    return n


def smaximum(x, y):
    for u, v in ((x, y), (y, x)):
        if sym.inf_of(u) is not None:
            return v if sym.inf_of(u) < 0 else u
    x, y = lift(x), lift(y)
    r = ite(S(numterm(x) >= numterm(y)), S(numterm(x)), S(numterm(y)))
    n = _nan_of(x, y)
    return r if n is None else S(r.t, n)


def sminimum(x, y):
    for u, v in ((x, y), (y, x)):
        if sym.inf_of(u) is not None:
            return v if sym.inf_of(u) > 0 else u
    x, y = lift(x), lift(y)
    r = ite(S(numterm(x) <= numterm(y)), S(numterm(x)), S(numterm(y)))
    n = _nan_of(x, y)
    return r if n is None else S(r.t, n)


def maximum(a, b):
    return elementwise(smaximum, a, b)


def minimum(a, b):
    return elementwise(sminimum, a, b)


def sqrt_(a):
    return elementwise(sym.sqrt, a)


def isnan(a):
    return elementwise(lambda x: S(lift(x).nan if lift(x).nan is not None else z3.BoolVal(False)), a, kind='b')


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim > 2 or b.ndim > 2:
        if b.ndim <= 2 and a.ndim > 2 and b.ndim == 2:
            sa, sb = a.snapshot(), b.snapshot()
            if not dim_same(a.shape[-1], b.shape[0]):
                raise ValueError('matmul: mismatch in core dimension')
            k = a.shape[-1]
            return Arr(a.shape[:-1] + (b.shape[1],), lambda *i: sum_over(k, lambda j: lift(sa(*(i[:-1] + (j,)))) * sb(j, i[-1])), join_kind([a.kind, b.kind]))
        raise Unsupported('matmul of higher dimensions')
    va, vb = a.ndim == 1, b.ndim == 1
    A = expand_dims(a, 0) if va else a
    B = expand_dims(b, 1) if vb else b
    if not dim_same(A.shape[1], B.shape[0]):
        raise ValueError('matmul: mismatch in core dimension')
    k = A.shape[1] if isinstance(A.shape[1], int) else B.shape[0]
    sa, sb = A.snapshot(), B.snapshot()
    r = Arr((A.shape[0], B.shape[1]), lambda i, j: sum_over(k, lambda q: lift(sa(i, q)) * sb(q, j)), join_kind([a.kind, b.kind]))
    if va and vb:
        return r.read(0, 0)
    if va:
        return r[0]
    if vb:
        return r[:, 0]
    return r


UNROLL = 64


def sum_over(n, f):
    n = norm(n)
    if isinstance(n, int) and n <= UNROLL:
        r = None
        for i in range(n):
            v = lift(f(i))
            r = v if r is None else r + v
        return r if r is not None else S(z3.RealVal(0))
    return reduce_term('sum', n, f)


def quant(name, n, p):
    """exists/forall over 0 <= j < n of p(j)"""
    n = norm(n)
    if isinstance(n, int) and n <= UNROLL:
        l = [boolterm(p(i)) for i in range(n)]
        return S(z3.Or(*l) if name == 'any' else z3.And(*l)) if l else S(z3.BoolVal(name == 'all'))
    j = fresh(INT, 'q')
    b = z3.simplify(boolterm(p(S(j))))
    rng = z3.And(j >= 0, j < numterm(n))
    if name == 'any':
        if z3.is_false(b):
            return S(z3.BoolVal(False))
        return S(z3.Exists([j], z3.And(rng, b)))
    if z3.is_true(b):
        return S(z3.BoolVal(True))
    return S(z3.ForAll([j], z3.Implies(rng, b)))


def reduce_1(op, n, f, extra=(), skipna=False, member=None):
    """reduction of f over 0..n-1 (restricted to members); NaN handling as numpy (propagate) or pandas (skip)"""
    n = norm(n)
    if op in ('any', 'all'):
        return quant(op, n, lambda j: S(sym.truth(f(j))) if member is None else (And(member(j), S(sym.truth(f(j)))) if op == 'any' else Implies(member(j), S(sym.truth(f(j))))))
    probe = lift(f(S(fresh(INT, 'p')))) if not (isinstance(n, int) and n <= UNROLL) else None
    mem = member
    nanf = None
    if probe is not None:
        if probe.nan is not None:
            if skipna:
                old = member
                mem = lambda j: And(old(j) if old else True, Not(S(lift(f(j)).nan if lift(f(j)).nan is not None else z3.BoolVal(False))))
            else:
                q = quant('any', n, lambda j: And(member(j) if member else True, S(lift(f(j)).nan)))
                nanf = q.t
        if op == 'sum':
            r = reduce_term('sum', n, f, mem)
        elif op == 'count':
            return reduce_term('count', n, f, mem)
        elif op == 'mean':
            s, c = reduce_term('sum', n, f, mem), reduce_term('count', n, f, mem)
            r = s / c
            z = z3.simplify(c.t == 0)
            if not z3.is_false(z) and implied(S(c.t > 0)) is not True:
                nanf = z if nanf is None else z3.Or(nanf, z)
        else:
            r = reduce_term(op, n, f, mem, extra)
        return S(r.t, nanf) if nanf is not None else r
    vals = [lift(f(i)) for i in range(n)]
    if skipna or member is not None:
        ms = []
        for i, v in enumerate(vals):
            m = boolterm(member(i)) if member is not None else z3.BoolVal(True)
            if skipna and v.nan is not None:
                m = z3.And(m, z3.Not(v.nan))
            ms.append(z3.simplify(m))
        if all(z3.is_true(m) for m in ms):
            vals = [S(v.t, None if skipna else v.nan) for v in vals]
        else:
            if op in ('sum', 'mean', 'count'):
                c = S(z3.Sum([z3.If(m, 1, 0) for m in ms]))
                if op == 'count':
                    return c
                s = S(z3.Sum([z3.If(m, sym.real(numterm(v)), z3.RealVal(0)) for m, v in zip(ms, vals)]))
                nn = None
                if not skipna:
                    for m, v in zip(ms, vals):
                        if v.nan is not None:
                            nn = sym._or(nn, z3.And(m, v.nan))
                if op == 'sum':
                    return S(s.t, nn)
                return S((s / c).t, sym._or(nn, c.t == 0))
            lam_i = fresh(INT, 'j')
            ch = chain_s(vals)
            chm = chain_s([S(m) for m in ms])
            return reduce_term(op, n, ch, chm, extra)
    if op == 'count':
        return n
    if op in ('sum', 'mean'):
        if not vals:
            return S(z3.RealVal(0)) if op == 'sum' else S(z3.RealVal(0), z3.BoolVal(True))
        r = vals[0]
        for v in vals[1:]:
            r = r + v
        if z3.is_bool(r.t):
            r = S(numterm(r))
        return r if op == 'sum' else r / n
    if op in ('max', 'min'):
        r = vals[0]
        for v in vals[1:]:
            r = smaximum(r, v) if op == 'max' else sminimum(r, v)
        return r
    if n == 1 and op in ('quantile', 'median'):
        return vals[0]
    return reduce_term(op, n, chain_s(vals), None, extra)


def chain_s(vals):
    def f(j):
        j = norm(j)
        if isinstance(j, int):
            return vals[j]
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = ite(j == i, vals[i], r)
        return r
    return f


def reduce(a, op, axis=None, keepdims=False, extra=(), skipna=False):
    a = as_arr(a)
    if isinstance(axis, (tuple, list)):
        for x in sorted([x % a.ndim for x in axis], reverse=True):
            a = as_arr(reduce(a, op, x, keepdims, extra, skipna))
        return a if a.ndim else a.scalar()
    if axis is None:
        if a.ndim > 1:
            if op in ('mean',):
                if all(True for _ in a.shape):
                    r = reduce(a, 'sum', None, keepdims)
                    return r / a.size
            if op in ('sum', 'min', 'max', 'any', 'all'):
                r = a
                while r.ndim > 1:
                    r = reduce(r, op, r.ndim - 1)
                return reduce(r, op, 0)
            a = reshape(a, (-1,))
        axis = 0
        if a.ndim == 0:
            return a.scalar()
    axis = axis % a.ndim
    n, sn = a.shape[axis], a.snapshot()

    def fn(*idx):
        return reduce_1(op, n, lambda j: sn(*(idx[:axis] + (j,) + idx[axis:])), extra, skipna)
    shape = a.shape[:axis] + a.shape[axis + 1:]
    if not shape:
        return fn()
    r = Arr(shape, fn, 'b' if op in ('any', 'all') else a.kind if op in ('sum', 'max', 'min') and a.kind != 'b' else 'i' if op in ('sum', 'count') else 'f')
    return expand_dims(r, axis) if keepdims else r


def cumsum(a, axis=None):
    a = as_arr(a)
    if axis is None:
        a, axis = reshape(a, (-1,)), 0
    sn = a.snapshot()
    n = a.shape[axis]

    def fn(*i):
        e = norm(lift(i[axis]) + 1)
        if isinstance(e, int) and e <= UNROLL:
            return sum_over(e, lambda j: sn(*(i[:axis] + (j,) + i[axis + 1:])))
        if isinstance(n, int) and n <= UNROLL:
            r = 0
            for j in range(n):
                r = ite(lift(i[axis]) >= j, lift(sn(*(i[:axis] + (j,) + i[axis + 1:]))) + r, r) if j else lift(sn(*(i[:axis] + (0,) + i[axis + 1:])))
            return r
        return reduce_term('sum', e, lambda j: sn(*(i[:axis] + (j,) + i[axis + 1:])))
    return Arr(a.shape, fn, 'i' if a.kind == 'b' else a.kind)


def argx(a, axis, which):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('arg%s of a matrix' % which)
        axis = 0
    n, sn = a.shape[axis], a.snapshot()

    def one(idx):
        f = lambda j: lift(sn(*(idx[:axis] + (j,) + idx[axis:])))
        if isinstance(n, int) and n <= UNROLL:
            best, pos = f(0), 0
            for j in range(1, n):
                c = f(j) > best if which == 'max' else f(j) < best
                best, pos = ite(c, f(j), best), ite(c, j, pos)
            return pos
        raise Unsupported('arg%s over a symbolic axis' % which)
    shape = a.shape[:axis] + a.shape[axis + 1:]
    return one(()) if not shape else Arr(shape, lambda *i: one(i), 'i')


def quantile(a, q, axis=None, keepdims=False, skipna=False):
    """np.quantile with linear interpolation: uninterpreted in the members, monotone in the level"""
    a = as_arr(a)
    qa = as_arr(q)
    if qa.ndim == 0:
        return reduce(a, 'quantile', axis, keepdims, extra=(qa.scalar(),), skipna=skipna)
    if qa.ndim != 1:
        raise Unsupported('quantile levels as a matrix')
    if axis is None:
        if a.ndim != 1:
            a = reshape(a, (-1,))
        axis = 0
    axis = axis % a.ndim
    qs, sn, n = qa.snapshot(), a.snapshot(), a.shape[axis]
    shape = (qa.shape[0],) + a.shape[:axis] + a.shape[axis + 1:]

    def fn(k, *idx):
        return reduce_1('quantile', n, lambda j: sn(*(idx[:axis] + (j,) + idx[axis:])), (qs(k),), skipna)
    return Arr(shape, fn, 'f')


sym.red_decl('quantile', 1)


def _quant_axiom(t):
    return []


def equal_arrays(a, b):
    """goal: same shape and same values (as stored, NaN = NaN) at every index"""
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return S(z3.BoolVal(False))
    sh = [lift(x) == lift(y) for x, y in zip(a.shape, b.shape)]
    idx = [fresh(INT, 'e') for _ in a.shape]
    rng = [z3.And(i >= 0, i < numterm(d)) for i, d in zip(idx, a.shape)]
    sa, sb = a.snapshot(), b.snapshot()
    ai = [S(i) if isinstance(d, S) else S(i) for i, d in zip(idx, a.shape)]
    conc = all(isinstance(d, int) for d in a.shape)
    if conc and prod(a.shape) <= 40:
        return And(*sh, *[sym.same(sa(*i), sb(*i)) for i in np.ndindex(*a.shape)])
    body = boolterm(sym.same(sa(*ai), sb(*ai)))
    return And(*sh, S(z3.ForAll(idx, z3.Implies(z3.And(*rng), body)) if idx else body))


def symbolic(name, shape, kind='f', nan=False):
    """an array with arbitrary contents"""
    sort = {'f': REAL, 'i': INT, 'b': BOOL}[kind]
    u = next(sym._fresh)
    f = z3.Function('%s!%d' % (name, u), *([INT] * len(shape)), sort) if len(shape) else None
    nf = z3.Function('%s_nan!%d' % (name, u), *([INT] * len(shape)), BOOL) if nan else None

    def fn(*idx):
        t = [numterm(i) for i in idx]
        return S(f(*t), nf(*t) if nf is not None else None)
    r = Arr(shape, fn, kind)
    r.decl = f
    r.nan_decl = nf
    return r
