"""C18: column casts, splitting of tables and mapping over the pieces."""
from core import *
from core import _fn
import types
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['ray.get / Pool.starmap_async().get() return the results in the order of the requests (the pieces are passed unchanged to the workers)',
               'astype to an integer type keeps the values inside its range; astype to a narrower float type rounds values inside its range; min / max of a column skip missing values',
               'the number of columns and pieces is enumerated where tables are mapped (the number of rows, the values and the mapped row / column function are arbitrary); reduce_mem_usage_np is only tested (bounded)',
               'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.big_data_utils'
FF = 'pyforecaster/big_data_utils.py: '
F16, F32, F64, WRAP = (z3.Function(n, z3.RealSort(), z3.RealSort()) for n in ('FLOAT16', 'FLOAT32', 'FLOAT64', 'WRAPPED'))
F16MAX, F32MAX = lift(float(np.finfo(np.float16).max)), lift(float(np.finfo(np.float32).max))


def W_reduce(h, m):
    out = []
    for s, mode in enumerate(('ray', 'mp', 'serial')):
        for k, kinds in enumerate((['I', 'F', 'e'], ['e', 'u', 'h', 'f', 'n', 'b'], ['F', 'F', 'i', 'o', 'd'], ['i16', 'e', 'e', 'I', 'F', 'f', 'F'])):
            for n in (1, 7, 30):
                out.append(dict(case='reduce', params=dict(seed=s + 3 * k + n, n=n, kinds=kinds, cols='ism'[(s + k) % 3], idx='rtp'[k % 3], mode=mode)))
    return out


def W_split(h, m):
    return [dict(case='split', params=dict(seed=i, n=n, m=c, k=k, axis=ax, df=d)) for i, (n, c, k) in enumerate([(40, 5, 3), (7, 12, 5), (3, 2, 5), (10, 10, 1), (1, 1, 3), (23, 7, 7), (6, 3, 2)]) for ax in (0, 1) for d in (True, False)]


def W_map(h, m):
    out = []
    for i, (n, c, k) in enumerate([(12, 7, 3), (30, 3, 2), (5, 20, 4), (8, 1, 1), (12, 7, None), (30, 3, 5)]):
        for ax in (0, 1):
            for ray in (True, False):
                for kind in ('cell', 'df', 'np'):
                    for li in (False, True):
                        out.append(dict(case='map', params=dict(seed=i, n=n, m=c, k=k, axis=ax, ray=ray, aslist=li, kind=kind, idx='ti'[i % 2], tz=None)))
        out.append(dict(case='tuple', params=out[-1]['params']))
    return out


class TArr(A.Arr):
    """a column with a numpy dtype"""
    @staticmethod
    def of(a, dt):
        r = TArr(a.shape, a.snapshot(), a.kind)
        r.dt = np.dtype(dt)
        return r

    @property
    def dtype(self): return self.dt

    def copy(self, *a, **k): return TArr.of(self, self.dt)

    def __getitem__(self, k):
        r = A.Arr.__getitem__(self, k)
        return TArr.of(r, self.dt) if isinstance(r, A.Arr) and r.ndim == 1 else r

    def astype(self, d, *a, **k):
        d, o, sn = np.dtype(d), self.dt, self.snapshot()
        if d == o:
            return TArr.of(self, d)
        if d.kind not in 'iuf' or o.kind not in 'iuf':
            raise Unsupported('cast of %s to %s' % (o, d))

        def f(i):
            v = lift(sn(i))
            x = S(v.t)
            r = S(sym.real(numterm(x)))
            if d.kind in 'iu':
                if o.kind == 'f':
                    raise Unsupported('cast of a float column to integers')
                ii = np.iinfo(d)
                return ite(And(x >= lift(int(ii.min)), x <= lift(int(ii.max))), x, S(z3.ToInt(WRAP(r.t))))
            if o.kind in 'iu':
                e = 2 ** {2: 11, 4: 24, 8: 53}[d.itemsize]
                t = ite(And(x >= -e, x <= e), r, S({2: F16, 4: F32, 8: F64}[d.itemsize](r.t)))
            elif d.itemsize >= o.itemsize:
                t = r
            else:
                t = S({2: F16, 4: F32}[d.itemsize](r.t))
            return S(t.t, v.nan)
        r = TArr((self.shape[0],), f, 'f' if d.kind == 'f' else 'i')
        r.dt = d
        return r


class Extreme(frame.Series):
    """a float column that holds infinities (its finite values are arbitrary)"""
    lo = hi = None

    def min(self, *a, **k): return self.lo if self.lo is not None else frame.Series.min(self)
    def max(self, *a, **k): return self.hi if self.hi is not None else frame.Series.max(self)

    def astype(self, d):
        r = frame.Series.astype(self, d)
        return r


DTYPES = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'bool')


def column(name, n, dt):
    d = np.dtype(dt)
    a = symbolic(name, (n,), 'f' if d.kind == 'f' else 'i')
    if d.kind == 'f':
        a = symbolic(name, (n,), 'f', nan=True)
    if d.kind in 'iu':
        ii = np.iinfo(d)
        ctx().assume(boolterm(forall(lambda i: And(a.read(i) >= lift(int(ii.min)), a.read(i) <= lift(int(ii.max))), (0, n))))
    if d.kind == 'f' and d.itemsize < 8:
        M = F16MAX if d.itemsize == 2 else F32MAX
        ctx().assume(boolterm(forall(lambda i: And(S(a.read(i).t) >= -M, S(a.read(i).t) <= M), (0, n))))
    if d.kind == 'b':
        a = symbolic(name, (n,), 'b')
    return TArr.of(a, dt)


def kept(a, b):
    """every value of b is the one of a, or its single-precision rounding inside the range of single precision"""
    x, y = a.snapshot(), b.snapshot()

    def one(i):
        u, v = lift(x(i)), lift(y(i))
        if z3.is_bool(u.t):
            return S(boolterm(u) == boolterm(v)) if z3.is_bool(v.t) else S(z3.BoolVal(False))
        nan = lambda q: S(q.nan) if q.nan is not None else S(z3.BoolVal(False))
        r = sym.real(numterm(S(u.t)))
        eq = S(u.t) == S(v.t)
        if a.dt.kind == 'f':
            z = S(sym.real(numterm(S(v.t))))
            eq = Or(eq, z == S(KEEP(r)), z == S(KEEP(KEEP(r))), And(S(sym.real(numterm(S(v.t)))) == S(F32(r)), S(u.t) >= -F32MAX, S(u.t) <= F32MAX))
            return Or(And(nan(u), nan(v)), And(Not(nan(u)), Not(nan(v)), eq))
        return eq
    return And(lift(a.shape[0]) == b.shape[0], forall(one, (0, a.shape[0])))


def load(h):
    f = h.module(F)
    f.tqdm = lambda x, *a, **k: x
    return f


for _dt in DTYPES:
    @contract('reduce_mem_usage_series: every %s value is kept' % _dt, [FF + 'reduce_mem_usage_series'], W_reduce)
    def _c(h, dt=_dt):
        f = load(h)
        n = sint('n', 1)
        a = column('v', n, dt)
        s = frame.Series(a, frame.time_index('t', n, False), 'c')
        keep = a.copy()
        r = f.reduce_mem_usage_series(s)
        h.ensure('every value kept', kept(keep, as_arr(r)))
        h.ensure('row labels kept', lift(bool(r.index.same(s.index))))
        h.ensure('name kept', lift(r.name == 'c'))
        h.ensure('column of the caller unchanged', kept(keep, s.a) if keep.dt.kind != 'f' else equal_arrays(keep, s.a))


@contract('reduce_mem_usage_series: float columns with infinities', [FF + 'reduce_mem_usage_series'], W_reduce)
def _inf(h):
    f = load(h)
    for nm, lo, hi in (('-inf', -np.inf, None), ('inf', None, np.inf), ('both', -np.inf, np.inf), ('only missing', np.nan, np.nan)):
        n = sint('n', 1)
        a = column('v', n, 'float64')
        s = Extreme(a, frame.time_index('t', n, False), 'c')
        s.lo, s.hi = lo, hi
        keep = a.copy()
        r = f.reduce_mem_usage_series(s)
        h.ensure('every value kept (%s)' % nm, kept(keep, as_arr(r)))


KEEP = z3.Function('REDUCED', z3.RealSort(), z3.RealSort())


def by_contract(f):
    """callers of reduce_mem_usage_series rely on its contract: the same rows, the same name, every value kept"""
    def red(s):
        if not isinstance(s, frame.Series) or not isinstance(s.a, TArr):
            raise Unsupported('reduction of something else than a column')
        if s.a.dt.kind != 'f':
            return frame.Series(TArr.of(s.a, s.a.dt), s.index, s.name)
        sn = s.a.snapshot()
        return frame.Series(TArr.of(A.Arr(s.a.shape, lambda i: S(KEEP(sym.real(numterm(S(lift(sn(i)).t)))), lift(sn(i)).nan), 'f'), s.a.dt), s.index, s.name)
    f.reduce_mem_usage_series = red
    return f


def table(h, kinds, n, name='x', times=True):
    cols = [column('%s%d' % (name, j), n, k) for j, k in enumerate(kinds)]
    return frame.Frame(cols, frame.time_index('t', n, False), pd.Index(['c%d' % (7 * j % len(kinds)) if len(kinds) % 7 else 'c%d' % j for j in range(len(kinds))]))


def kept_table(h, x, cols, r):
    h.ensure('the result is a table with the column labels in order', lift(bool(isinstance(r, frame.Frame) and list(r.columns) == list(x.columns))))
    h.ensure('row labels in order', lift(bool(r.index.same(x.index))))
    for j, (a, b) in enumerate(zip(cols, r.cl)):
        h.ensure('column %d keeps its values' % j, kept(a, b))


TAB = ['int64', 'float64', 'int16', 'uint64', 'float64']


@contract('reduce_mem_usage_df: columns, labels and values', [FF + 'reduce_mem_usage_df'], W_reduce)
def _df(h):
    f = by_contract(load(h))
    n = sint('n', 1)
    x = table(h, TAB, n)
    keep = [c.copy() for c in x.cl]
    r = f.reduce_mem_usage_df(x)
    kept_table(h, x, keep, r)
    for j, (a, b) in enumerate(zip(keep, x.cl)):
        h.ensure('column %d of the caller unchanged' % j, equal_arrays(a, b))


class Ray:
    """ray, results in the order of the requests"""
    def __init__(self): self.up = False
    def is_initialized(self): return self.up
    def init(self, *a, **k): self.up = True
    def shutdown(self): self.up = False

    def remote(self, g):
        return types.SimpleNamespace(remote=lambda *a, **k: ('ref', lambda: g(*a, **k)))

    def get(self, l):
        return [r[1]() for r in l] if isinstance(l, (list, tuple)) else l[1]()

    def put(self, x): return ('ref', lambda: x)


class Pool:
    def __init__(self, processes=None, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def starmap(self, g, args, chunksize=None): return [g(*a) for a in args]
    def map(self, g, args, chunksize=None): return [g(a) for a in args]
    def imap(self, g, args, chunksize=1): return iter([g(a) for a in args])
    def starmap_async(self, g, args, *a, **k): return types.SimpleNamespace(get=lambda timeout=None: self.starmap(g, args), wait=lambda timeout=None: None)
    def map_async(self, g, args, *a, **k): return types.SimpleNamespace(get=lambda timeout=None: self.map(g, args), wait=lambda timeout=None: None)


def backends(f, cpus=3):
    f.ray, f.Pool, f.cpu_count = Ray(), Pool, lambda: cpus
    return f


LOG = types.SimpleNamespace(info=lambda *a, **k: None, debug=lambda *a, **k: None, warning=lambda *a, **k: None)
for _mode, _kw in (('ray', dict(parallel=True, use_ray=True)), ('processes', dict(parallel=True, use_ray=False)), ('serial', dict(parallel=False))):
    for _cp in (2, 3, 8):
        @contract('reduce_mem_usage: columns, labels and values (%s, %d workers)' % (_mode, _cp), [FF + q for q in ('reduce_mem_usage', 'reduce_mem_usage_df', 'fdf_parallel', 'array_split', 'mapper')], W_reduce)
        def _all(h, kw=_kw, cp=_cp):
            f = by_contract(backends(load(h), cp))
            n = sint('n', 1)
            x = table(h, TAB, n)
            keep = [c.copy() for c in x.cl]
            y = frame.Frame([c.copy() for c in x.cl], x.index, x.columns)
            r = f.reduce_mem_usage(y, logger=LOG, **kw)
            kept_table(h, x, keep, r)
            if kw['parallel']:
                for j, (a, b) in enumerate(zip(keep, y.cl)):
                    h.ensure('column %d of the caller unchanged' % j, equal_arrays(a, b))


# ------------------------------------------------------------------------------------------------ splitting
def pieces_ok(h, a, parts, axis, get, labels=True):
    n = a.shape[axis]
    off = lift(0)
    for k, p in enumerate(parts):
        m = p.shape[axis]
        h.ensure('piece %d has the whole other axis' % k, lift(p.shape[1 - axis]) == a.shape[1 - axis])
        h.ensure('piece %d starts where the previous one ended' % k, get(p, off, m))
        h.ensure('piece %d: length' % k, And(lift(m) >= 0, lift(m) * len(parts) <= lift(n) + len(parts), lift(m) * len(parts) >= lift(n) - len(parts)))
        off = off + m
    h.ensure('the pieces cover it', off == n)


for _k in (1, 2, 3, 5, 7):
    @contract('array_split: %d contiguous pieces of a table, in order' % _k, [FF + 'array_split'], W_split)
    def _sr(h, k=_k):
        f = load(h)
        n = sint('n', 0)
        x = frame.Frame(symbolic('x', (n, 4)), frame.time_index('t', n, False), pd.Index(list('badc')))
        parts = f.array_split(x, k)
        h.ensure('number of pieces', lift(len(parts) == k))
        h.ensure('column labels', lift(bool(all(list(p.columns) == list('badc') for p in parts))))

        def get(p, off, m):
            o, v, w = off, x.values.snapshot(), p.values.snapshot()
            return And(forall(lambda i: And(*[lift(w(i, j)) == v(o + i, j) for j in range(4)]), (0, m)), forall(lambda i: lift(p.index.key(i)) == x.index.key(o + i), (0, m)))
        pieces_ok(h, x, parts, 0, get)

    @contract('array_split: %d contiguous pieces of an array, in order' % _k, [FF + 'array_split'], W_split)
    def _sa(h, k=_k):
        f = load(h)
        n, m_ = sint('n', 0), sint('m', 0)
        x = symbolic('x', (n, m_))
        for ax in (0, 1):
            parts = f.array_split(x, k, axis=ax)
            h.ensure('number of pieces', lift(len(parts) == k))

            def get(p, off, m, ax=ax):
                v, w = x.snapshot(), p.snapshot()
                return forall(lambda i, j: lift(w(i, j)) == v(*((off + i, j) if ax == 0 else (i, off + j))), *(((0, m), (0, m_)) if ax == 0 else ((0, n), (0, m))))
            pieces_ok(h, x, parts, ax, get)

    @contract('array_split: %d contiguous groups of columns, in order' % _k, [FF + 'array_split'], W_split)
    def _sc(h, k=_k):
        f = load(h)
        n = sint('n', 0)
        for c in (1, 4, 7):
            x = frame.Frame(symbolic('x', (n, c)), frame.time_index('t', n, False), pd.Index(['c%d' % (3 * j % 7) for j in range(c)]))
            parts = f.array_split(x, k, axis=1)
            h.ensure('%d columns: number of pieces' % c, lift(len(parts) == k))
            h.ensure('%d columns: the labels in order' % c, lift(bool(sum([list(p.columns) for p in parts], []) == list(x.columns) and all(p.index.same(x.index) for p in parts))))
            cl = sum([list(p.cl) for p in parts], [])
            h.ensure('%d columns: the values' % c, And(*[equal_arrays(a, b) for a, b in zip(cl, x.cl)]))


# ------------------------------------------------------------------------------------------------ mapping
def maps(kind, axis):
    """an arbitrary row-wise / column-wise function with one value per cell"""
    G = [_fn('ROWFUN%d' % q, 'rrrr', 'r') for q in range(4)]
    H = _fn('COLFUN', 'irrr', 'r')

    def rowf(v):                                       # rows of 4 values -> 4 values, an arbitrary function of the row
        sn = v.snapshot()
        return A.Arr((v.shape[0], 4), lambda i, j: A.chain_s([G[q](*[lift(sn(i, p)) for p in range(4)]) for q in range(4)])(norm(j)) if not isinstance(norm(j), int) else G[norm(j)](*[lift(sn(i, p)) for p in range(4)]), 'f')

    def colf(v):                                       # every column from its values, its sum and its largest value
        sn = v.snapshot()
        s, mx = v.sum(axis=0), v.max(axis=0)
        return A.Arr(v.shape, lambda i, j: H(lift(i), lift(sn(i, j)), s.read(j), mx.read(j)), 'f')
    g = rowf if axis == 0 else colf

    def f(x):
        if isinstance(x, frame.Frame):
            r = g(x.values)
            if kind == 'array':
                return r
            return frame.Frame([r[:, j] for j in range(len(x.columns))], x.index, x.columns)
        if kind != 'array':
            raise AttributeError('columns')
        return g(x)
    return f


COLS = 4
for _ax in (0, 1):
    for _kind in ('table', 'array'):
        for _ray in (True, False):
            @contract('fdf_parallel: mapping a %s function of %ss over the pieces equals mapping it over the whole (%s)' % ('row' if _ax == 0 else 'column', _kind, 'ray' if _ray else 'processes if the function takes arrays'),
                      [FF + q for q in ('fdf_parallel', 'array_split', 'mapper')], W_map)
            def _fm(h, ax=_ax, kind=_kind, ray=_ray):
                f = backends(load(h), 2)
                fun = maps(kind, ax)
                for k in (1, 2, 3, 5, None):
                    n = sint('n', 1)
                    x = frame.Frame(symbolic('x', (n, COLS)), frame.time_index('t', n, False), pd.Index(list('badc')))
                    keep = [c.copy() for c in x.cl]
                    want = fun(x)
                    r = f.fdf_parallel(fun, x, k, axis=ax, use_ray=ray)
                    same_map(h, x, want, r, '%s pieces' % k, kind == 'table' or not ray)
                    h.ensure('%s pieces: table of the caller unchanged' % k, And(*[equal_arrays(a, b) for a, b in zip(keep, x.cl)]))

            @contract('fdf_parallel: mapping a %s function of %ss over a list of tables (%s)' % ('row' if _ax == 0 else 'column', _kind, 'ray' if _ray else 'processes if the function takes arrays'),
                      [FF + q for q in ('fdf_parallel', 'mapper')], W_map)
            def _fl(h, ax=_ax, kind=_kind, ray=_ray):
                f = backends(load(h), 2)
                fun = maps(kind, ax)
                n, m = sint('n', 1), sint('m', 1)
                h.assume(m < n)
                x = frame.Frame(symbolic('x', (n, COLS)), frame.time_index('t', n, False), pd.Index(list('badc')))
                l = [x.iloc[:m], x.iloc[m:]] if ax == 0 else [x.iloc[:, :1], x.iloc[:, 1:]]
                want = fun(x)
                r = f.fdf_parallel(fun, l, 2, axis=ax, use_ray=ray)
                same_map(h, x, want, r, 'list', kind == 'table' or not ray)


def same_map(h, x, want, r, nm, labels):
    h.ensure('%s: shape' % nm, And(*[lift(a) == b for a, b in zip(as_arr(r).shape, as_arr(want).shape)]))
    a, b = as_arr(r), as_arr(want)
    for j in range(COLS):
        h.ensure('%s: column %d' % (nm, j), forall(lambda i: a.read(i, j) == b.read(i, j), (0, x.index.n)))
    if labels:
        h.ensure('%s: column labels' % nm, lift(bool(isinstance(r, frame.Frame) and list(r.columns) == list(x.columns))))
        h.ensure('%s: row labels' % nm, And(lift(r.index.n) == x.index.n, forall(lambda i: lift(r.index.key(i)) == x.index.key(i), (0, x.index.n))))


@contract('fdf_parallel: pairs of tables, unassembled results', [FF + q for q in ('fdf_parallel', 'array_split')], W_map)
def _pair(h):
    f = backends(load(h), 3)
    one = maps('table', 0)
    for k in (2, 3):
        n = sint('n', 1)
        x = frame.Frame(symbolic('x', (n, COLS)), frame.time_index('t', n, False), pd.Index(list('badc')))
        pair = lambda d: (one(d), frame.Frame([d.cl[1]], d.index, pd.Index(['a'])))
        r = f.fdf_parallel(pair, x, k, axis=0)
        h.ensure('%d pieces: two tables' % k, lift(bool(isinstance(r, tuple) and len(r) == 2)))
        same_map(h, x, one(x), r[0], '%d pieces, first' % k, True)
        h.ensure('%d pieces, second' % k, And(equal_arrays(r[1].cl[0], x.cl[1]), lift(r[1].index.n) == n))
        l = f.fdf_parallel(one, x, k, axis=0, recast=False)
        h.ensure('%d pieces: unassembled' % k, lift(bool(isinstance(l, list) and len(l) == k)))
        same_map(h, x, one(x), frame.concat(l, axis=0), '%d pieces, unassembled' % k, True)
