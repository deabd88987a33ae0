"""numpy proxy: concrete calls go to numpy, symbolic ones to the functional model of arr.py."""
import types
import numpy as np
import z3
import arr, sym
from arr import Arr, needs_sym, as_arr, elementwise, norm
from sym import S, Unsupported, lift, ite, And, Or, Not


class Proxy(types.ModuleType):
    def __init__(self, real, table, name=None, sub=None):
        super().__init__(name or real.__name__)
        self.__dict__['_real'], self.__dict__['_table'], self.__dict__['_sub'] = real, table, sub or {}

    def __getattr__(self, k):
        if k in self._sub:
            return self._sub[k]
        r = getattr(self._real, k)
        t = self._table.get(k)
        if t is not None:
            if getattr(t, '_always', False):
                return t

            def f(*a, **kw):
                if any(needs_sym(x) for x in a) or any(needs_sym(x) for x in kw.values()):
                    return t(*a, **kw)
                return r(*a, **kw)
            f.__name__ = k
            return f
        if isinstance(r, types.ModuleType):
            return Proxy(r, {}, sub={})
        if callable(r) and not isinstance(r, type):
            def g(*a, **kw):
                a = [concretize(x) for x in a]
                kw = {q: concretize(x) for q, x in kw.items()}
                if any(needs_sym(x) for x in a) or any(needs_sym(x) for x in kw.values()):
                    raise Unsupported('%s.%s on symbolic values' % (self._real.__name__, k))
                return r(*a, **kw)
            g.__name__ = k
            return g
        return r


def concretize(x):
    """Arr with concrete contents -> ndarray"""
    if isinstance(x, S):
        c = x.concrete()
        return x if c is None else c
    if isinstance(x, Arr):
        if all(isinstance(d, int) for d in x.shape) and x.size <= 4096:
            out = np.empty(x.shape, dtype=x.dtype.type)
            for i in np.ndindex(*x.shape):
                v = x.read(*i)
                v = v.concrete() if isinstance(v, S) else v
                if v is None:
                    return x
                out[i] = v
            return out
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(concretize(v) for v in x) if type(x) in (list, tuple) else x
    return x


def ew(f, kind=None):
    return lambda x, *a, **k: elementwise(f, x, kind=kind)


def ew2(f, kind=None):
    return lambda x, y, *a, **k: elementwise(f, x, y, kind=kind)


def red(op):
    def f(a, axis=None, keepdims=False, **k):
        if hasattr(a, '__pydv_reduce__') and axis in (None, 0):
            return a.__pydv_reduce__(op)
        if axis is not None and not keepdims and not k and hasattr(a, '__pydv_frame__') and hasattr(a, op):
            return getattr(a, op)(axis=axis)
        return arr.reduce(_a(a), op, axis, keepdims)
    return f


def _a(x):
    return as_arr(x)


def _array(x, dtype=None, copy=True, **k):
    if isinstance(x, S):
        r = Arr((), lambda: x, arr.kind_of(x))
    else:
        r = as_arr(x).copy() if not hasattr(x, '__pydv_list__') or isinstance(norm(getattr(x, 'n', 0)), S) else arr.stack(x.__pydv_list__())
    return r.astype(dtype) if dtype is not None else r


def _asarray(x, dtype=None, **k):
    r = as_arr(x)
    return r.astype(dtype) if dtype is not None and arr.dt_kind(dtype) != r.kind else r


def _shape(s):
    if isinstance(s, Arr):
        return tuple(s)
    return s if isinstance(s, (tuple, list)) else (s,)


def _zeros(v):
    def f(shape, dtype=float, **k):
        return arr.full(_shape(shape), 0. if v == 0 else 1., arr.dt_kind(dtype or float))
    return f


def _like(v):
    def f(a, dtype=None, **k):
        a = as_arr(a)
        kd = arr.dt_kind(dtype) if dtype is not None else a.kind
        if kd == 'O':
            raise Unsupported('*_like of labels')
        return arr.full(a.shape, v, kd)
    return f


def _full(shape, v, dtype=None, **k):
    return arr.full(_shape(shape), v, arr.dt_kind(dtype) if dtype is not None else None)


def _full_like(a, v, dtype=None, **k):
    a = as_arr(a)
    return arr.full(a.shape, v, arr.dt_kind(dtype) if dtype is not None else a.kind)


def _eye(n, m=None, **k):
    sq = m is None
    m = n if m is None else m
    r = Arr((n, m), lambda i, j: ite(lift(i) == j, 1., 0.), 'f')
    r.eye = sq
    return r


def _dot(a, b, **k):
    if hasattr(a, '__pydv_mat__') or hasattr(b, '__pydv_mat__'):
        import mat
        return mat.dot(a, b)
    return arr.matmul(a, b)


def _pinv(a, **k):
    if hasattr(a, '__pydv_mat__'):
        import mat
        return mat.PINV(a)
    raise Unsupported('pinv')


def _transpose(a, axes=None):
    if hasattr(a, '__pydv_mat__'):
        return a.T
    return arr.transpose(a, axes)


def _diag(a, k=0):
    a = as_arr(a)
    sn = a.snapshot()
    if a.ndim == 1:
        return Arr((a.shape[0], a.shape[0]), lambda i, j: ite(lift(i) == j, sn(i), 0. if a.kind == 'f' else 0), a.kind)
    return Arr((arr.smin(*a.shape),), lambda i: sn(i, i), a.kind)


def _quantile(a, q, axis=None, **k):
    return arr.quantile(a, q, axis)


def _median(a, axis=None, **k):
    return arr.reduce(_a(a), 'quantile', axis, extra=(0.5,))


def _diff(a, n=1, axis=-1):
    a = as_arr(a)
    axis = axis % a.ndim
    hi = tuple(slice(1, None) if i == axis else slice(None) for i in range(a.ndim))
    lo = tuple(slice(None, -1) if i == axis else slice(None) for i in range(a.ndim))
    return a[hi] - a[lo]


def _insert(*a, **k):
    raise Unsupported('np.insert')


def _append(a, b, axis=None):
    a, b = as_arr(a), as_arr(b)
    if axis is None:
        return arr.concatenate([a.ravel() if a.ndim else arr.atleast_1d(a), b.ravel() if b.ndim else arr.atleast_1d(b)], 0)
    return arr.concatenate([a, b], axis)


def _allclose(a, b, **k):
    raise Unsupported('allclose')


def _array_equal(a, b):
    return arr.equal_arrays(a, b)


def _isin(a, l, **k):
    l = list(l) if not isinstance(l, Arr) else l
    if isinstance(l, Arr):
        n, sn = l.shape[0], l.snapshot()
        return elementwise(lambda x: arr.quant('any', n, lambda j: lift(x) == sn(j)), a, kind='b')
    return elementwise(lambda x: Or(*[lift(x) == y for y in l]), a, kind='b')


def _triu(a, k=0):
    a = as_arr(a)
    sn = a.snapshot()
    return Arr(a.shape, lambda i, j: ite(lift(j) - i >= k, sn(i, j), 0.), a.kind)


def _tril(a, k=0):
    a = as_arr(a)
    sn = a.snapshot()
    return Arr(a.shape, lambda i, j: ite(lift(j) - i <= k, sn(i, j), 0.), a.kind)


def _ones_bool(f):
    return f


def _sign(x):
    x = lift(x)
    return ite(x > 0, 1, ite(x < 0, -1, 0)) if not z3.is_real(x.t) else ite(x > 0, 1., ite(x < 0, -1., 0.))


def _outer(a, b):
    a, b = as_arr(a).ravel(), as_arr(b).ravel()
    return a[:, None] * b[None, :]


def _array_split(a, n, axis=0):
    n = norm(n) if not isinstance(n, (list, np.ndarray)) else n
    if isinstance(n, S) or isinstance(n, (list, np.ndarray)):
        raise Unsupported('array_split into a symbolic number of parts')
    obj = a
    L = obj.shape[axis]
    q, r = lift(L) // n, lift(L) % n
    out, st = [], 0
    for k in range(n):
        ln = norm(q + ite(r > k, 1, 0))
        en = norm(lift(st) + ln)
        sl = (slice(None),) * axis + (slice(st, en),)
        out.append(obj[sl if axis else slice(st, en)])
        st = en
    return out


def _expand(a, axis):
    return arr.expand_dims(a, axis)


def _swap(a, i, j):
    return as_arr(a).swapaxes(i, j)


def _corr(*a, **k):
    raise Unsupported('corrcoef')


def _histogram(a, bins=10, **k):
    """members per cell [b_k, b_k+1); the last cell is closed"""
    a, b = as_arr(a).ravel(), as_arr(bins)
    if b.ndim != 1 or k:
        raise Unsupported('histogram options')
    n, sa, sb = a.shape[0], a.snapshot(), b.snapshot()
    m = norm(lift(b.shape[0]) - 1)

    def fn(c):
        lo, hi, last = sb(c), sb(lift(c) + 1), lift(c) == lift(m) - 1
        return sym.reduce_term('count', n, lambda j: 1, lambda j: And(lift(sa(j)) >= lo, Or(lift(sa(j)) < hi, And(last, lift(sa(j)) == hi))))
    return Arr((m,), fn, 'i'), b


def _errstate(*a, **k):
    return np.errstate(*a, **k)


TABLE = {
    'array': _array, 'asarray': _asarray, 'asanyarray': _asarray, 'copy': lambda a, **k: as_arr(a).copy(), 'ravel': lambda a: as_arr(a).ravel(),
    'sum': red('sum'), 'mean': red('mean'), 'max': red('max'), 'min': red('min'), 'amax': red('max'), 'amin': red('min'), 'any': red('any'), 'all': red('all'),
    'average': lambda a, axis=None, **k: arr.reduce(_a(a), 'mean', axis) if not k.get('weights') is not None else arr._uns('weighted average'),
    'std': lambda a, axis=None, **k: _a(a).std(axis, **k), 'var': lambda a, axis=None, **k: _a(a).var(axis, **k),
    'quantile': _quantile, 'median': _median, 'cumsum': lambda a, axis=None: arr.cumsum(a, axis),
    'abs': ew(lambda x: abs(lift(x))), 'absolute': ew(lambda x: abs(lift(x))), 'fabs': ew(lambda x: abs(lift(x))), 'sqrt': ew(sym.sqrt), 'exp': ew(sym.exp), 'log': ew(sym.log), 'log1p': ew(lambda x: sym.log(lift(x) + 1)), 'expm1': ew(lambda x: sym.exp(x) - 1), 'sin': ew(sym.sin), 'cos': ew(sym.cos), 'tanh': ew(sym.tanh),
    'floor': ew(sym.floor), 'ceil': ew(sym.ceil), 'rint': ew(lambda x: arr.cast(sym.round_half_even(x), 'f')), 'round': lambda a, *k: elementwise(lambda x: arr.cast(sym.round_half_even(x), arr.kind_of(x)), a), 'sign': ew(_sign), 'square': ew(lambda x: lift(x) * x), 'isnan': arr.isnan, 'negative': ew(lambda x: -lift(x)),
    'isfinite': ew(lambda x: Not(S(lift(x).nan)) if lift(x).nan is not None else S(z3.BoolVal(True)), 'b'), 'isinf': ew(lambda x: S(z3.BoolVal(False)), 'b'),
    'logical_not': ew(lambda x: Not(x), 'b'), 'logical_and': ew2(lambda x, y: And(x, y), 'b'), 'logical_or': ew2(lambda x, y: Or(x, y), 'b'), 'invert': ew(lambda x: ~lift(x)),
    'maximum': arr.maximum, 'minimum': arr.minimum, 'fmax': arr.maximum, 'fmin': arr.minimum, 'clip': lambda a, lo=None, hi=None, **k: arr.clip(a, lo, hi), 'where': arr.where, 'power': ew2(lambda x, y: lift(x) ** y),
    'add': ew2(lambda x, y: lift(x) + y), 'subtract': ew2(lambda x, y: lift(x) - y), 'multiply': ew2(lambda x, y: lift(x) * y), 'divide': ew2(lambda x, y: lift(x) / y), 'equal': ew2(lambda x, y: lift(x) == y), 'greater': ew2(lambda x, y: lift(x) > y), 'less': ew2(lambda x, y: lift(x) < y),
    'flatnonzero': arr.flatnonzero, 'nonzero': lambda a: (arr.flatnonzero(a),), 'argwhere': lambda a: arr.flatnonzero(a)[:, None],
    'zeros': _zeros(0), 'ones': _zeros(1), 'empty': _zeros(0), 'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0), 'full': _full, 'full_like': _full_like, 'eye': _eye, 'identity': _eye, 'diag': _diag,
    'arange': arr.arange, 'linspace': lambda a, b, n=50, **k: arr.linspace(a, b, n),
    'reshape': lambda a, s, **k: as_arr(a).reshape(s), 'transpose': _transpose, 'swapaxes': _swap, 'squeeze': arr.squeeze, 'expand_dims': _expand, 'atleast_1d': arr.atleast_1d, 'atleast_2d': arr.atleast_2d,
    'concatenate': lambda l, axis=0: arr.concatenate(l, axis), 'stack': lambda l, axis=0: arr.stack(_l(l), axis), 'hstack': arr.hstack, 'vstack': arr.vstack, 'dstack': arr.dstack, 'column_stack': lambda l: arr.hstack([as_arr(a)[:, None] if as_arr(a).ndim == 1 else a for a in _l(l)]),
    'tile': arr.tile, 'repeat': arr.repeat, 'roll': arr.roll, 'diff': _diff, 'insert': _insert, 'append': _append, 'dot': _dot, 'matmul': _dot, 'outer': _outer, 'triu': _triu, 'tril': _tril,
    'allclose': _allclose, 'array_equal': _array_equal, 'isin': _isin, 'in1d': _isin, 'array_split': _array_split, 'ndim': lambda a: as_arr(a).ndim, 'shape': lambda a: as_arr(a).shape, 'size': lambda a: as_arr(a).size,
    'flip': lambda a, axis=0: as_arr(a)[tuple([slice(None)] * axis + [slice(None, None, -1)])], 'argmax': lambda a, axis=None: arr.argx(a, axis, 'max'), 'argmin': lambda a, axis=None: arr.argx(a, axis, 'min'),
    'nanmean': lambda a, axis=None, **k: arr.reduce(_a(a), 'mean', axis, skipna=True), 'nansum': lambda a, axis=None, **k: arr.reduce(_a(a), 'sum', axis, skipna=True), 'nanquantile': lambda a, q, axis=None, **k: arr.quantile(a, q, axis, skipna=True),
    'unique': lambda a, return_inverse=False, **k: arr._uns('np.unique options') if k else arr.unique(a, return_inverse),
    'histogram': _histogram, 'take': lambda a, idx, axis=0: as_arr(a).take(idx, axis), 'ix_': lambda *a: arr._uns('ix_'),
}
TABLE['linalg'] = None
del TABLE['linalg']


def _l(l):
    return l.__pydv_list__() if hasattr(l, '__pydv_list__') else list(l)


for _k in ('zeros', 'ones', 'empty', 'full', 'eye', 'identity'):
    TABLE[_k]._always = True


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, np.ndarray))


class ndarray(metaclass=_NDMeta):
    pass


LINALG = Proxy(np.linalg, {'pinv': _pinv, 'inv': _pinv, 'solve': lambda a, b: _dot(_pinv(a), b), 'multi_dot': lambda l: _dot(l[0], LINALG.multi_dot(l[1:])) if len(l) > 1 else l[0]}, 'numpy.linalg')


def _noise(lo, hi):
    def f(*shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        a = arr.symbolic('noise', tuple(norm(s) for s in shape) or (1,))
        a = elementwise(lambda v: arr.sminimum(arr.smaximum(v, lo), hi), a)
        return a if shape else a.read(0)
    f._always = True
    return f


RANDOM = Proxy(np.random, {'rand': _noise(0., 1.), 'randn': _noise(-64., 64.)}, 'numpy.random')
NP = Proxy(np, TABLE, 'numpy', dict(ndarray=ndarray, linalg=LINALG, random=RANDOM))
