"""pandas proxy: tables, series and indexes with symbolic numbers of rows (and, where needed, of columns).

Row labels are integers (time stamps as nanoseconds); `hour` and friends of a time label are uninterpreted functions of it.
Column labels are concrete (a real pandas Index) or, for tables with a symbolic number of columns, positions of a SymCols.
"""
import types
import numpy as np
import pandas as pd
import z3
import arr, sym
from arr import Arr, as_arr, norm, needs_sym, elementwise, dim_same
from sym import S, Unsupported, lift, ite, And, Or, Not, Implies, numterm, boolterm, ctx, fresh, INT, REAL, BOOL

HOUR = z3.Function('hour', INT, INT)
MINUTE = z3.Function('minute', INT, INT)
DOW = z3.Function('dayofweek', INT, INT)
TOD = z3.Function('time_of_day', INT, INT)
FLOOR = z3.Function('floor_time', INT, INT, INT)
sym.AX[HOUR.get_id()] = lambda t: [t >= 0, t < 24]
sym.AX[MINUTE.get_id()] = lambda t: [t >= 0, t < 60]
sym.AX[DOW.get_id()] = lambda t: [t >= 0, t < 7]


UTCOFF = z3.Function('utc_offset_seconds', INT, REAL)


class Stamp(S):
    """one time label"""
    __slots__ = ('tz',)

    def __init__(self, v, tz=None):
        S.__init__(self, numterm(v))
        self.tz = tz

    hour = property(lambda s: S(HOUR(s.t)))
    minute = property(lambda s: S(MINUTE(s.t)))
    dayofweek = property(lambda s: S(DOW(s.t)))
    def weekday(self): return self.dayofweek

    def utcoffset(self):
        return None if self.tz is None else Offset(self)


class Offset:
    def __init__(self, s):
        self.s = s

    def total_seconds(self): return S(UTCOFF(self.s.t))

    def __getattr__(self, k):
        raise Unsupported('utcoffset.%s' % k)


class Row:
    """row i of a table, as seen by apply"""
    def __init__(self, f, i):
        self._f, self._i = f, i

    @property
    def name(self): return Stamp(self._f.index.key(self._i), self._f.index.tz) if self._f.index.kind == 'time' else self._f.index.key(self._i)

    def __getitem__(self, c): return self._f.col(c).a.read(self._i)

    @property
    def values(self):
        return arr.member(self._f.values, self._i)

    def __pydv_array__(self): return self.values
    def __pydv_len__(self): return self._f.shape[1]

    def __getattr__(self, k):
        raise Unsupported('row.%s' % k)


class Counts:
    """value_counts() of labels: its most frequent label is one of them"""
    def __init__(self, ix):
        self._ix = ix

    def idxmax(self):
        p = fresh(INT, 'most')
        ctx().assume(z3.And(p >= 0, p < numterm(self._ix.n)))
        ctx().inexact = True
        return lift(self._ix.key(S(p)))

    def __getattr__(self, k):
        raise Unsupported('value_counts().%s' % k)


class Index:
    __pydv_sym__ = True
    tz = None
    base = None

    def __init__(self, n, key, kind='int', src=None, name=None):
        self.n, self.key, self.kind, self.name = norm(n), key, kind, name
        self.src = src if src is not None else object()

    # identity
    def same(self, o):
        """the two indexes hold the same labels in the same order (decided by the path, never forked)"""
        if self is o or self.src is o.src:
            return True
        if isinstance(self.n, int) and isinstance(o.n, int) and self.n != o.n:
            return False
        g = self.equal(o)
        p = sym.prove(list(ctx().path), g, timeout=3000, want_model=False)
        return p.status == 'proved'

    def selected(self, o):
        """is self a selection of the rows of o, or of the same rows?"""
        return self.base is not None and (self.base[0] is o or self.base[0].src is o.src)

    def equal(self, o):
        if not isinstance(o, Index):
            return S(z3.BoolVal(False))
        i = fresh(INT, 'e')
        return And(lift(self.n) == o.n, S(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < numterm(self.n)), boolterm(sym.same(self.key(S(i)), o.key(S(i))))))))

    def equals(self, o):
        if self is o or (isinstance(o, Index) and self.src is o.src):
            return True
        g = self.equal(o)
        if sym.prove(list(ctx().path), g, timeout=3000, want_model=False).status == 'proved':
            return True
        return bool(g)

    def __pydv_len__(self): return self.n
    def __len__(self): return norm(self.n).__index__()
    @property
    def shape(self): return (self.n,)
    @property
    def size(self): return self.n
    @property
    def nlevels(self): return 1
    def __pydv_array__(self): return Arr((self.n,), self.key, 'i')
    @property
    def values(self): return self.__pydv_array__()
    def to_numpy(self, *a, **k): return self.__pydv_array__()
    def copy(self, *a, **k): return self
    def to_series(self): return Series(self.__pydv_array__(), self) if not hasattr(self, 'step') else RegularTimes(self)
    def __iter__(self): return iter(self.__pydv_array__())

    def __pydv_iter__(self):
        a = self.__pydv_array__()
        if isinstance(a.shape[0], S):
            import load
            return load.Seq(a.shape[0], lambda i: a[i])
        return a

    def value_counts(self, *a, **k):
        return Counts(self)

    def _f(self, F):
        if self.kind != 'time':
            raise AttributeError('the index is not a time index')
        k = self.key
        return Index(self.n, lambda i: S(F(numterm(k(i)))), 'int')

    hour = property(lambda s: s._f(HOUR))
    minute = property(lambda s: s._f(MINUTE))
    dayofweek = property(lambda s: s._f(DOW))
    time = property(lambda s: Index(s.n, (lambda k: lambda i: S(TOD(numterm(k(i)))))(s.key), 'int'))

    def floor(self, f):
        k, ft = self.key, lift(f)
        return Index(self.n, lambda i: S(FLOOR(numterm(k(i)), numterm(ft))), 'time')

    def unique(self):
        u = arr.unique(self.__pydv_array__())
        return Index(u.shape[0], u.snapshot(), self.kind)

    @property
    def is_unique(self):
        i, j = fresh(INT, 'e'), fresh(INT, 'e')
        return S(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < numterm(self.n)), z3.Not(boolterm(self.key(S(i)) == self.key(S(j)))))))

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer, S)) and not isinstance(k, (bool, np.bool_)) and not (isinstance(k, S) and z3.is_bool(k.t)):
            v = self.key(arr.norm_int(k, self.n))
            return Stamp(v, self.tz) if self.kind == 'time' else v
        k = k.a if isinstance(k, Series) else k
        a = self.__pydv_array__()[k]
        src = None
        if isinstance(k, slice) and k == slice(None):
            src = self.src
        r = Index(a.shape[0], a.snapshot(), self.kind, src, self.name)
        r.tz = self.tz
        if isinstance(k, (Arr, np.ndarray, list)) and arr.is_bool_key(as_arr(k)):
            r.base = (self, as_arr(k).copy())
        return r

    def _cmp(op):
        def f(self, o):
            o = o.__pydv_array__() if hasattr(o, '__pydv_array__') else o
            return elementwise(op, self.__pydv_array__(), o)
        return f
    __lt__, __le__, __gt__, __ge__ = _cmp(lambda x, y: lift(x) < y), _cmp(lambda x, y: lift(x) <= y), _cmp(lambda x, y: lift(x) > y), _cmp(lambda x, y: lift(x) >= y)
    __eq__, __ne__ = _cmp(lambda x, y: lift(x) == y), _cmp(lambda x, y: lift(x) != y)
    __add__, __sub__, __mul__ = _cmp(lambda x, y: lift(x) + y), _cmp(lambda x, y: lift(x) - y), _cmp(lambda x, y: lift(x) * y)
    __hash__ = None
    def isin(self, l): return NPX()._table['isin'](self.__pydv_array__(), l)

    def append(self, o):
        return cat_index([self] + (list(o) if isinstance(o, (list, tuple)) else [o]))


def NPX():
    import npx
    return npx.NP


def time_index(name, n, increasing=True):
    """an arbitrary time index; strictly increasing when asked (assumed on the path)"""
    f = z3.Function('%s!%d' % (name, next(sym._fresh)), INT, INT)
    ix = Index(n, lambda i: S(f(numterm(i))), 'time')
    ix.decl = f
    if increasing:
        i, j = fresh(INT, 'q'), fresh(INT, 'q')
        nt = numterm(n)
        sym.KEEP.append(f)
        sym.FACTS.setdefault(f.get_id(), []).append(lambda terms: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < nt, b.arg(0) >= 0, b.arg(0) < nt), z3.And((a.arg(0) < b.arg(0)) == (a < b), (a.arg(0) == b.arg(0)) == (a == b))) for a, b in terms])
        ctx().keep.append(f)
    return ix


def regular_index(name, n, step):
    """an arbitrary regular time index with a given sampling time (pd.Timedelta)"""
    t0 = fresh(INT, name)
    st = int(pd.Timedelta(step).value)
    ix = Index(n, lambda i: S(t0 + numterm(lift(i)) * st), 'time')
    ix.step = pd.Timedelta(step)
    return ix


class RegularTimes:
    """the times of a regular index as a series; all differences equal the sampling time"""
    __pydv_sym__ = True

    def __init__(self, ix, diff=False):
        self.ix, self.d = ix, diff

    def diff(self, periods=1):
        if periods != 1 or self.d:
            raise Unsupported('differences of times')
        return RegularTimes(self.ix, True)

    def _common(self, *a, **k):
        if not self.d:
            raise Unsupported('statistics of times')
        if not bool(lift(self.ix.n) >= 2):
            raise Unsupported('sampling time of a single row')
        return self.ix.step
    median = min = max = mean = _common

    def __getattr__(self, k):
        raise Unsupported('times.%s' % k)


class Rolling:
    """windows of the last rows (time windows end with the row and are open on the left)"""
    def __init__(self, s, window, min_periods=None, **k):
        if k:
            raise Unsupported('rolling with %s' % sorted(k))
        ix = s.index
        if isinstance(window, (int, np.integer)):
            w = int(window)
            mp = w if min_periods is None else int(min_periods)
        elif isinstance(window, (str, pd.Timedelta, np.timedelta64)):
            if not hasattr(ix, 'step'):
                raise Unsupported('time window over an index that is not known to be regular')
            w = -(-pd.Timedelta(window).value // ix.step.value)
            mp = 1 if min_periods is None else int(min_periods)
        else:
            raise Unsupported('rolling window %s' % type(window).__name__)
        if w < 1:
            raise Unsupported('empty rolling window')
        if mp > w:
            raise ValueError('min_periods %d must be <= window %d' % (mp, w)) if isinstance(window, (int, np.integer)) else Unsupported('min_periods above the window')
        self.s, self.w, self.mp = s, w, mp

    def _one(self, f):
        s, w, mp = self.s, self.w, self.mp
        sn = s.a.snapshot()
        n = s.a.shape[0]

        def fn(r):
            vals, ok = [], []
            for q in range(w - 1, -1, -1):
                j = lift(r) - q
                v = lift(sn(norm(j)))
                g = j >= 0
                if v.nan is not None:
                    g = And(g, Not(S(v.nan)))
                vals.append(v)
                ok.append(z3.simplify(boolterm(g)))
            return window_value(f, vals, ok, mp)
        return Arr((n,), fn, 'f')

    def agg(self, fs, *a, **k):
        if a or k:
            raise Unsupported('rolling.agg options')
        if isinstance(fs, (list, tuple)):
            return Frame([self._one(f) for f in fs], self.s.index, pd.Index([f if isinstance(f, str) else getattr(f, '__name__', str(f)) for f in fs]))
        return Series(self._one(fs), self.s.index, self.s.name)
    aggregate = agg

    def apply(self, f, **k):
        if k:
            raise Unsupported('rolling.apply options')
        return self.agg(f)


for _n in ('mean', 'sum', 'min', 'max', 'std', 'var', 'median'):
    setattr(Rolling, _n, lambda self, _n=_n: self.agg(_n))


def window_value(f, vals, ok, mp):
    """an uninterpreted function of the present members of a window; missing when fewer than mp are present"""
    key = f if isinstance(f, str) else 'fn_%s' % getattr(f, '__name__', 'x')
    w = len(vals)
    d = z3.Function('window_%s_%d' % (key, w), *([REAL] * w), *([BOOL] * w), REAL)
    zero = z3.RealVal(0)
    args = [z3.simplify(z3.If(o, sym.real(numterm(v)), zero)) for v, o in zip(vals, ok)]
    cnt = z3.Sum([z3.If(o, z3.IntVal(1), z3.IntVal(0)) for o in ok])
    bad = z3.simplify(cnt < mp)
    return S(d(*args, *ok), None if z3.is_false(bad) else bad)


def range_index(n):
    return Index(n, lambda i: lift(i), 'int')


def as_index(ix, n=None):
    if isinstance(ix, Index):
        return ix
    if ix is None:
        return range_index(n)
    if isinstance(ix, pd.Index):
        if isinstance(ix, pd.DatetimeIndex):
            v = ix.asi8
            return Index(len(ix), arr.chain(v), 'time')
        if ix.dtype.kind in 'iu':
            return Index(len(ix), arr.chain(ix.values), 'int')
        return Index(len(ix), arr.chain(np.array(ix, dtype=object)), 'obj')
    a = as_arr(ix)
    return Index(a.shape[0], a.snapshot(), 'int')


class SymCols:
    """column labels of a table with a symbolic number of columns: pairwise different"""
    __pydv_sym__ = True

    def __init__(self, n, label=None, levels=None, names=None):
        self.n, self.levels_ = norm(n), levels
        f = z3.Function('col!%d' % next(sym._fresh), INT, INT)
        self.label = label or (lambda j: S(f(numterm(j))))
        self.names = names
        self.uid = object()

    def __pydv_len__(self): return self.n
    @property
    def shape(self): return (self.n,)
    def same(self, o): return self is o or (isinstance(o, SymCols) and (self.uid is o.uid))
    @property
    def nlevels(self): return len(self.levels_) if self.levels_ else 1
    def __pydv_array__(self): return Arr((self.n,), self.label, 'i')

    def get_level_values(self, k):
        if not self.levels_:
            return self
        if getattr(self, 'product', None):
            return LevelOf(self, k)
        raise Unsupported('level values of symbolic columns')


class LevelOf:
    """level k of the labels of a product of two label lists (each without repetitions)"""
    __pydv_sym__ = True

    def __init__(self, cols, k):
        self.cols, self.k, self.n = cols, k, cols.n

    def __pydv_len__(self): return self.n

    def unique(self):
        l = self.cols.levels_[self.k]
        return l if isinstance(l, (SymCols, pd.Index)) else as_index(l) if isinstance(l, Arr) else pd.Index(l)


def same_cols(a, b):
    if isinstance(a, pd.Index) and isinstance(b, pd.Index):
        return len(a) == len(b) and list(a) == list(b)
    if isinstance(a, SymCols):
        return a.same(b)
    return False


def is_frame(x):
    return isinstance(x, (Frame, Series))


class Series:
    __pydv_sym__ = True
    __pydv_frame__ = True
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, a, index=None, name=None):
        a = as_arr(a)
        if a.ndim == 0:
            v = a.scalar()
            a = Arr((as_index(index).n,), lambda i: v, a.kind)
        self.a, self.name = a, name
        self.index = as_index(index, a.shape[0])

    def __pydv_array__(self): return self.a
    def __pydv_len__(self): return self.a.shape[0]
    def __len__(self): return norm(self.a.shape[0]).__index__()
    @property
    def values(self): return self.a
    def to_numpy(self, *a, **k): return self.a
    @property
    def shape(self): return self.a.shape
    @property
    def ndim(self): return 1
    @property
    def dtype(self): return self.a.dtype
    @property
    def iloc(self): return ILoc(self)
    @property
    def loc(self): return Loc(self)
    @property
    def T(self): return self
    @property
    def empty(self): return bool(lift(self.a.shape[0]) == 0)
    def copy(self, *a, **k): return Series(self.a.copy(), self.index, self.name)
    def rename(self, n=None): return Series(self.a, self.index, n)
    def astype(self, d):
        if d is str or (isinstance(d, str) and d == 'str'):
            return TextSeries(self)
        return Series(self.a.astype(d), self.index, self.name)
    def _w(self, a): return Series(a, self.index, self.name)
    def abs(self): return self._w(abs(self.a))
    def isna(self): return self._w(arr.isnan(self.a))
    def __neg__(self): return self._w(-self.a)
    def __invert__(self): return self._w(~self.a)
    def ravel(self): return self.a
    def _red(op):
        def f(self, *a, **k): return arr.reduce(self.a, op, 0, skipna=True)
        return f
    sum, mean, min, max, any, all = _red('sum'), _red('mean'), _red('min'), _red('max'), _red('any'), _red('all')
    del _red
    def quantile(self, q): return arr.quantile(self.a, q, 0, skipna=True)
    def median(self): return arr.quantile(self.a, 0.5, 0, skipna=True)
    def diff(self): return self - self.shift(1)
    def rolling(self, window, min_periods=None, **k): return Rolling(self, window, min_periods, **k)
    def unique(self): return arr.unique_ordered(self.a)

    def shift(self, l):
        return Series(shift_arr(self.a, l), self.index, self.name)

    def __getitem__(self, k):
        if isinstance(k, (Arr, np.ndarray, Series)) and arr.is_bool_key(as_arr(k)):
            return self.loc[k]
        raise Unsupported('series lookup by label')

    def _b(op, rev=False):
        def f(self, o):
            if isinstance(o, Frame):
                raise Unsupported('series-table arithmetic')
            if isinstance(o, Series):
                if not self.index.same(o.index):
                    if self.index.selected(o.index) and self.a.kind == 'b' and o.a.kind == 'b':
                        return Series(elementwise(op, *((o.a, align(self)) if rev else (align(self), o.a))), o.index)
                    if o.index.selected(self.index) and self.a.kind == 'b' and o.a.kind == 'b':
                        return Series(elementwise(op, *((align(o), self.a) if rev else (self.a, align(o)))), self.index)
                    raise Unsupported('arithmetic of series with different indexes')
                return self._w(elementwise(op, o.a, self.a) if rev else elementwise(op, self.a, o.a))
            if isinstance(o, (str, type(None))):
                raise Unsupported('comparison with text')
            return self._w(elementwise(op, o, self.a) if rev else elementwise(op, self.a, o))
        return f
    import operator as _o
    _ops = dict(add=_o.add, sub=_o.sub, mul=_o.mul, truediv=_o.truediv, floordiv=_o.floordiv, mod=_o.mod, pow=_o.pow, lt=_o.lt, le=_o.le, gt=_o.gt, ge=_o.ge, eq=_o.eq, ne=_o.ne)
    for _k, _f in _ops.items():
        exec('__%s__ = _b(lambda x, y, _f=_ops[%r]: _f(lift(x), y))' % (_k, _k))
        if _k in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
            exec('__r%s__ = _b(lambda x, y, _f=_ops[%r]: _f(lift(x), y), True)' % (_k, _k))
    __and__, __rand__ = _b(lambda x, y: lift(x) & y), _b(lambda x, y: lift(x) & y, True)
    __or__, __ror__ = _b(lambda x, y: lift(x) | y), _b(lambda x, y: lift(x) | y, True)
    del _b, _k, _f, _o, _ops

    def groupby(self, by, **k):
        return GroupBy(Frame([self.a], self.index, pd.Index([self.name])), by, series=True)

    def map(self, f):
        if callable(f):
            raise Unsupported('series.map of a function')
        if isinstance(f, Series):
            return f._lookup(self)
        raise Unsupported('series.map')

    def _lookup(self, keys):
        """values of this series at the labels `keys` (NaN when absent); labels assumed unique"""
        n, key, v = self.index.n, self.index.key, self.a.snapshot()
        groups = getattr(self.index, 'groups', None)
        ks = keys.a.snapshot()
        kinds = self.a.kind

        def at(i):
            lab = ks(i)
            if groups is not None:
                # labels are the distinct values of `groups`: the group of the first row with this label
                bs, m = groups.snapshot(), groups.shape[0]
                has, row = arr.find(m, bs, lab)
                lam, nt, _, _ = arr.unique_parts(groups)
                pos = arr.UPOS(lam, nt, numterm(row))
                pos = z3.simplify(pos)
                GROUP_LABEL[pos.get_id()] = (pos, lab)      # the label of that group (values of absent labels are missing)
                p = has, S(pos)
            else:
                p = arr.find(n, key, lab)
            return S(sym.real(numterm(v(p[1]))), z3.Not(boolterm(p[0])))
        return Series(Arr(keys.a.shape, at, 'f'), keys.index, keys.name)

    def set_axis(self, labels, axis=0):
        return Series(self.a, as_index(labels), self.name)


def align(s):
    """a boolean series over selected rows, brought back to all rows (False where it has none)"""
    parent, mask = s.index.base
    ms, sn = mask.snapshot(), s.a.snapshot()
    j = fresh(INT, 'm')
    body = z3.simplify(boolterm(ms(S(j))))
    if z3.is_true(body):
        return s.a
    lam, nt = sym.close(j, body), numterm(parent.n)
    k = fresh(INT, 'k')
    at = z3.simplify(boolterm(sn(S(k))))
    pos = sym.SEL(lam, nt, k)
    gen = z3.substitute(at, (z3.simplify(pos), j), (pos, j))
    if sym._free_of(gen, k):
        # the k-th selected row is row i: the value at row i itself
        both = z3.simplify(z3.And(body, gen))
        return Arr((parent.n,), lambda i: S(z3.simplify(z3.substitute(both, (j, numterm(lift(i)))))), 'b')
    return Arr((parent.n,), lambda i: And(S(boolterm(ms(i))), S(boolterm(sn(S(sym.RANK(lam, nt, numterm(lift(i)))))))), 'b')


TEXT = [None]             # value -> its text (both numbered); None: every value is its own text


class TextSeries:
    """str() of the values of a series; equal texts = equal values (labels are told apart by their text)"""
    __pydv_sym__ = True

    def __init__(self, s):
        self.s = s
        self.a = s.a if TEXT[0] is None else arr.elementwise(lambda v: TEXT[0](v), s.a)
        self.index, self.name = s.index, s.name

    def __pydv_array__(self): return self.a
    @property
    def values(self): return self.a
    def to_numpy(self, *a, **k): return self.a
    def astype(self, d): return self if d in (str, 'str') else _no('texts as another type')
    def unique(self): return arr.unique(self.a)
    def tolist(self): return self.a.tolist()

    def isin(self, o):
        has = arr.SymSet.of(o).has
        sn = self.a.snapshot()
        return Series(Arr(self.a.shape, lambda i: has(sn(i)), 'b'), self.index)


def _no(why):
    raise Unsupported(why)


def shift_arr(a, l):
    l = norm(l)
    n = a.shape[0]
    sn = a.snapshot()

    def fn(i, *r):
        j = lift(i) - l
        ok = And(j >= 0, j < n)
        v = lift(sn(norm(j), *r))
        bad = z3.simplify(z3.Not(boolterm(ok)))
        return S(sym.real(numterm(v)), sym._or(v.nan, None if z3.is_false(bad) else bad))
    return Arr(a.shape, fn, 'f')


class Frame:
    __pydv_sym__ = True
    __pydv_frame__ = True
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, data, index, columns):
        """data: list of 1-D arrays (concrete columns) or one 2-D array (symbolic columns)"""
        self.index, self._columns = index, columns
        if isinstance(columns, pd.Index):
            if not isinstance(data, list):
                data = [data[:, j] for j in range(len(columns))]
            self.cl, self.a2 = [as_arr(c) for c in data], None
            if len(self.cl) != len(columns):
                raise ValueError('columns do not match')
        else:
            self.cl, self.a2 = None, as_arr(data)

    # -- basics
    @property
    def columns(self): return self._columns

    @columns.setter
    def columns(self, c):
        c = as_cols(c)
        if not (isinstance(c, pd.Index) and isinstance(self._columns, pd.Index)):
            if not bool(lift(ncols(c)) == ncols(self._columns)):
                raise ValueError('Length mismatch')
            self.__init__(self.values, self.index, c)
            return
        if len(c) != len(self._columns):
            raise ValueError('Length mismatch')
        self._columns = c

    @property
    def values(self):
        if self.a2 is not None:
            return self.a2
        if not self.cl:
            return Arr((self.index.n, 0), lambda i, j: 0., 'f')
        sn = [c.snapshot() for c in self.cl]

        def fn(i, j):
            j = norm(j)
            if isinstance(j, int):
                return sn[j](i)
            return arr.chain_s([s(i) for s in sn])(j)
        return Arr((self.index.n, len(self.cl)), fn, arr.join_kind(c.kind for c in self.cl))

    def __pydv_array__(self): return self.values
    def to_numpy(self, *a, **k): return self.values
    def __pydv_len__(self): return self.index.n
    def __len__(self): return norm(self.index.n).__index__()
    @property
    def shape(self): return (self.index.n, ncols(self._columns))
    @property
    def ndim(self): return 2
    @property
    def size(self): return norm(lift(self.index.n) * ncols(self._columns))
    @property
    def T(self): return Transposed(self)
    @property
    def empty(self): return bool(Or(lift(self.index.n) == 0, lift(ncols(self._columns)) == 0))
    @property
    def iloc(self): return ILoc(self)
    @property
    def loc(self): return Loc(self)
    @property
    def dtypes(self): return pd.Series([np.dtype(c.dtype.type) for c in self.cl], index=self._columns)

    def copy(self, *a, **k):
        return Frame([c.copy() for c in self.cl] if self.cl is not None else self.a2.copy(), self.index, self._columns)

    def _map(self, f):
        return Frame([f(c) for c in self.cl] if self.cl is not None else f(self.a2), self.index, self._columns)

    def rows(self, sel):
        """rows by position (slice, mask, positions)"""
        ix = self.index[sel]
        if self.cl is not None:
            return Frame([c[sel] for c in self.cl], ix, self._columns)
        return Frame(self.a2[sel], ix, self._columns)

    def pick(self, cols):
        pos = self.pos(cols)
        return Frame([self.cl[p] for p in pos], self.index, self._columns[pos])

    def pos(self, cols):
        if self.cl is None:
            raise Unsupported('column lookup in a table with a symbolic number of columns')
        out = []
        for c in cols:
            w = [i for i, l in enumerate(self._columns) if l == c]
            if not w:
                raise KeyError(c)
            out += w
        return out

    def col(self, c):
        p = self.pos([c])
        if len(p) > 1:
            return Frame([self.cl[i] for i in p], self.index, self._columns[p])
        return Series(self.cl[p[0]], self.index, c)

    def __getitem__(self, k):
        if isinstance(k, (Series, Arr, np.ndarray)) and arr.is_bool_key(as_arr(k)):
            return self.loc[k]
        if isinstance(k, pd.Index):
            k = list(k)
        if isinstance(k, (list, np.ndarray)):
            return self.pick(list(k))
        if isinstance(k, slice):
            raise Unsupported('row slice by []')
        if isinstance(self._columns, pd.MultiIndex) and isinstance(k, tuple) and len(k) == self._columns.nlevels:
            return self.col(k)
        if isinstance(self._columns, pd.MultiIndex):
            pos = [i for i, l in enumerate(self._columns) if l[0] == k]
            if not pos:
                raise KeyError(k)
            return Frame([self.cl[p] for p in pos], self.index, self._columns[pos].droplevel(0))
        return self.col(k)

    def __setitem__(self, k, v):
        self._own()
        if isinstance(self._columns, pd.MultiIndex) and not isinstance(k, tuple):
            pos = [i for i, l in enumerate(self._columns) if l[0] == k]
            if not isinstance(v, Frame) or v.cl is None or not pos or not v.index.same(self.index) or list(v.columns) != list(self._columns[pos].droplevel(0)):
                raise Unsupported('assignment to a group of columns')
            for p, c in zip(pos, v.cl):
                self.cl[p] = c.copy()
            return
        if isinstance(k, list):
            if isinstance(v, (Series, Frame, Arr, np.ndarray, list)):
                raise Unsupported('assignment of several columns')
            for c in k:
                self[c] = v
            return
        if isinstance(v, Series):
            if not v.index.same(self.index):
                raise Unsupported('assignment of a column with another index')
            v = v.a
        v = as_arr(v)
        if v.ndim == 0:
            s = v.scalar()
            v = Arr((self.index.n,), lambda i: s, v.kind)
        if v.ndim == 2:
            v = v[:, 0]
        dim_same(v.shape[0], self.index.n)
        v = v.copy()
        if k in self._columns:
            for p in self.pos([k]):
                self.cl[p] = v
        else:
            self.cl = self.cl + [v]
            self._columns = self._columns.append(pd.Index([k]))

    def _own(self):
        if self.cl is None:
            raise Unsupported('assignment of a column of a table with a symbolic number of columns')

    def __delitem__(self, k):
        p = self.pos([k])
        self.cl = [c for i, c in enumerate(self.cl) if i not in p]
        self._columns = self._columns.delete(p)

    def __contains__(self, k):
        return k in self._columns

    def items(self):
        return [(c, Series(a, self.index, c)) for c, a in zip(self._columns, self.cl)]

    def iterrows(self):
        import load
        f = self.copy()
        q = load.Seq(self.index.n, lambda i: (Row(f, i).name, Row(f, i)))
        return q if isinstance(norm(self.index.n), S) else iter(list(q))

    def apply(self, f, axis=0, **k):
        if axis not in (1, 'columns') or k:
            raise Unsupported('DataFrame.apply over columns')
        f = sym.freeze(f)
        return Series(Arr((self.index.n,), lambda i: lift(f(Row(self, i))), 'f'), self.index)

    def isna(self): return self._map(arr.isnan)
    def abs(self): return self._map(lambda c: abs(c))
    def __neg__(self): return self._map(lambda c: -c)
    def __invert__(self): return self._map(lambda c: ~c)
    def astype(self, d): return self._map(lambda c: c.astype(d))
    def shift(self, l): return self._map(lambda c: shift_arr(c, l))
    def _red(op):
        def f(self, axis=0, **k):
            a = arr.reduce(self.values, op, axis, skipna=True)
            return Series(a, self.index if axis == 1 else as_index(self._columns) if isinstance(self._columns, pd.Index) else None)
        return f
    sum, mean, min, max, any, all = _red('sum'), _red('mean'), _red('min'), _red('max'), _red('any'), _red('all')
    del _red

    def swaplevel(self, i=-2, j=-1, axis=0):
        if axis not in (1, 'columns') or self.cl is None:
            raise Unsupported('swaplevel of rows')
        return Frame(self.cl, self.index, self._columns.swaplevel(i, j))

    def sort_index(self, axis=0, level=None, ascending=True, **k):
        if axis not in (1, 'columns') or self.cl is None or k:
            raise Unsupported('sorting of symbolic row labels')
        c, o = self._columns.sortlevel(level if level is not None else 0, ascending=ascending) if isinstance(self._columns, pd.MultiIndex) else self._columns.sort_values(return_indexer=True, ascending=ascending)
        return Frame([self.cl[q] for q in o], self.index, c)

    def memory_usage(self, index=True, deep=False):
        """some number of bytes"""
        if self.cl is None:
            raise Unsupported('memory usage of a symbolic number of columns')
        n = len(self.cl) + bool(index)
        b = arr.symbolic('bytes', (n,), 'i')
        for i in range(n):
            ctx().assume(boolterm(b.read(i) >= 1))
        return Series(b, as_index((['Index'] if index else []) + list(self._columns)))

    def set_axis(self, labels, axis=0):
        if axis in (1, 'columns'):
            r = Frame(self.cl if self.cl is not None else self.a2, self.index, self._columns)
            r.columns = labels
            return r
        return Frame(self.cl if self.cl is not None else self.a2, as_index(labels), self._columns)

    def droplevel(self, k, axis=0):
        if axis != 1:
            raise Unsupported('droplevel of rows')
        return Frame(self.cl, self.index, self._columns.droplevel(k))

    def drop(self, labels=None, axis=0, columns=None, **k):
        cols = columns if columns is not None else labels if axis == 1 else None
        if cols is None:
            raise Unsupported('drop rows')
        cols = [cols] if isinstance(cols, str) else list(cols)
        p = self.pos(cols)
        keep = [i for i in range(len(self.cl)) if i not in p]
        return Frame([self.cl[i] for i in keep], self.index, self._columns[keep])

    def select_dtypes(self, include=None, **k):
        def kinds(l):
            names = {'object': 'O', 'category': 'O', object: 'O', 'O': 'O', 'number': 'fi', np.number: 'fi', 'bool': 'b', bool: 'b'}
            l = [l] if isinstance(l, (str, type)) else list(l)
            if any(i not in names for i in l):
                raise Unsupported('column types %r' % (l,))
            return set(''.join(names[i] for i in l))
        exclude = k.pop('exclude', None)
        if k:
            raise Unsupported('select_dtypes options')
        p = [i for i, c in enumerate(self.cl) if (include is None or c.kind in kinds(include)) and (exclude is None or c.kind not in kinds(exclude))]
        return Frame([self.cl[i] for i in p], self.index, self._columns[p])

    def _b(op, rev=False):
        def f(self, o):
            w = (lambda x, y: elementwise(op, y, x)) if rev else (lambda x, y: elementwise(op, x, y))
            if isinstance(o, Series):
                raise Unsupported('table-series arithmetic')
            if isinstance(o, Frame):
                if not self.index.same(o.index):
                    raise Unsupported('arithmetic of tables with different indexes')
                if not same_cols(self._columns, o._columns):
                    if self.cl is None or o.cl is None:
                        raise Unsupported('arithmetic of tables with different symbolic columns')
                    u = self._columns.union(o._columns)
                    nanc = Arr((self.index.n,), lambda i: float('nan'), 'f')
                    return Frame([w(self.col(c).a, o.col(c).a) if c in self._columns and c in o._columns else nanc for c in u], self.index, u)
                if self.cl is not None:
                    return Frame([w(a, b) for a, b in zip(self.cl, o.cl)], self.index, self._columns)
                return Frame(w(self.a2, o.a2), self.index, self._columns)
            a = as_arr(o)
            if a.ndim == 0:
                return self._map(lambda c: w(c, a.scalar()))
            r = w(self.values, a)
            if r.ndim != 2:
                raise Unsupported('table arithmetic')
            return Frame(r, self.index, self._columns)
        return f
    import operator as _o
    _ops = dict(add=_o.add, sub=_o.sub, mul=_o.mul, truediv=_o.truediv, floordiv=_o.floordiv, mod=_o.mod, pow=_o.pow, lt=_o.lt, le=_o.le, gt=_o.gt, ge=_o.ge, eq=_o.eq, ne=_o.ne)
    for _k, _f in _ops.items():
        exec('__%s__ = _b(lambda x, y, _f=_ops[%r]: _f(lift(x), y))' % (_k, _k))
        if _k in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
            exec('__r%s__ = _b(lambda x, y, _f=_ops[%r]: _f(lift(x), y), True)' % (_k, _k))
    __and__, __or__ = _b(lambda x, y: lift(x) & y), _b(lambda x, y: lift(x) | y)
    del _b, _k, _f, _o, _ops

    def groupby(self, by, **k):
        return GroupBy(self, by)

    __array_ufunc__ = None

    def __matmul__(self, o):
        if isinstance(o, (Frame, Transposed, Series)):
            raise Unsupported('product of tables')
        o = as_arr(o)
        r = arr.matmul(self.values, o)
        return Frame(r, self.index, _numbered(o.shape[1])) if o.ndim == 2 else Series(r, self.index)

    dot = __matmul__


class Transposed:
    """the transpose of a table: rows are the columns"""
    __pydv_sym__ = True
    __pydv_frame__ = True

    def __init__(self, f):
        self.f = f

    @property
    def T(self): return self.f
    @property
    def index(self): return self.f.columns
    @property
    def columns(self): return self.f.index
    @property
    def shape(self): return self.f.shape[::-1]
    @property
    def values(self): return self.f.values.T
    def __pydv_array__(self): return self.values
    __array_ufunc__ = None

    def __matmul__(self, o): return arr.matmul(self.values, o)

    def __rmatmul__(self, o):
        # matrix @ table: the columns of the table stay, the rows are numbered
        o = as_arr(o)
        if o.ndim != 2:
            raise Unsupported('product with a transposed table')
        return Transposed(Frame(arr.matmul(o, self.values).T, self.f.index, _numbered(o.shape[0])))

    def _b(name):
        def f(self, o):
            if isinstance(o, Transposed):
                return Transposed(getattr(self.f, name)(o.f))
            a = as_arr(o)
            if a.ndim not in (0, 2):
                raise Unsupported('arithmetic of a transposed table')
            return Transposed(getattr(self.f, name)(a.T if a.ndim else o))
        return f
    for _k in ('__add__', '__sub__', '__mul__', '__truediv__', '__radd__', '__rsub__', '__rmul__'):
        locals()[_k] = _b(_k)
    del _b, _k

    def groupby(self, by=None, level=None, **k):
        return GroupBy(self, by, level=level)


def _numbered(n):
    n = norm(n)
    return pd.RangeIndex(n) if isinstance(n, int) else SymCols(n)


GROUP_LABEL = {}


class GroupBy:
    def __init__(self, f, by, series=False, level=None):
        self.f, self.by, self.series, self.level = f, by, series, level

    def _agg(self, op):
        f = self.f
        vals = f.values
        sn = vals.snapshot()
        n = vals.shape[0]
        if self.level is not None:
            cols = f.index
            if not isinstance(cols, pd.MultiIndex):
                raise Unsupported('groupby level of symbolic labels')
            lab = cols.get_level_values(self.level)
            u = pd.Index(lab.unique()).sort_values()
            rows = [[i for i, l in enumerate(lab) if l == g] for g in u]
            m = vals.shape[1]

            def one(rs):
                return Arr((m,), lambda j: arr.reduce_1(op, len(rs), lambda q: lift(arr.chain_s([sn(r, j) for r in rs])(q)), skipna=True), 'f')
            g = Frame([one(rs) for rs in rows], f.columns, u)
            return Transposed(g)
        by = as_arr(self.by)
        if not dim_same(by.shape[0], n):
            raise ValueError('Grouper and axis must be same length')
        bs = by.snapshot()
        u = arr.unique(by)
        us = u.snapshot()
        m = vals.shape[1]

        def fn(g, j):
            lab = us(g)
            return arr.reduce_1(op, n, lambda r: sn(r, j), skipna=True, member=lambda r: lift(bs(r)) == lab)
        v = Arr((u.shape[0], m), fn, 'f')
        ix = Index(u.shape[0], us, 'int')
        r = Frame(v, ix, f.columns if not isinstance(f, Transposed) else SymColsOf(f.columns))
        r.grouped = True
        return r

    def mean(self, *a, **k): return self._agg('mean')
    def sum(self, *a, **k): return self._agg('sum')

    def agg(self, g, *a, **k):
        f = self.f
        if isinstance(g, str) and g in ('mean', 'sum'):
            return self._agg(g)
        if not callable(g) or a or k or self.level is not None or not isinstance(f, Frame) or f.cl is None:
            raise Unsupported('aggregation of groups')
        by, g = as_arr(self.by), sym.freeze(g)
        n = f.index.n
        if not dim_same(by.shape[0], n):
            raise ValueError('Grouper and axis must be same length')
        bs, us = by.snapshot(), arr.unique(by)
        uk = us.snapshot()

        def col(c):
            sn = c.snapshot()
            def at(q):
                known = GROUP_LABEL.get(z3.simplify(numterm(q)).get_id()) if isinstance(q, S) else None
                lab = known[1] if known else uk(q)
                return lift(g(Group(n, sn, lambda r: lift(bs(r)) == lab)))
            return Arr((us.shape[0],), at, 'f')
        ix = Index(us.shape[0], uk, 'int')
        ix.groups = by
        return Frame([col(c) for c in f.cl], ix, f.columns)
    aggregate = apply = agg


class Group:
    """the values of one column in one group of rows"""
    __pydv_sym__ = True
    __pydv_frame__ = True
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, n, f, member):
        self.n, self.f, self.member = n, f, member

    def _b(op, rev=False):
        def g(self, o):
            if isinstance(o, (Arr, Frame, Series, Group, np.ndarray)):
                raise Unsupported('values of a group combined with an array')
            f = self.f
            return Group(self.n, (lambda i: op(o, lift(f(i)))) if rev else (lambda i: op(lift(f(i)), o)), self.member)
        return g
    import operator as _o
    __eq__, __ne__, __lt__, __le__, __gt__, __ge__ = _b(lambda x, y: arr.scmp('==', x, y)), _b(lambda x, y: arr.scmp('!=', x, y)), _b(_o.lt), _b(_o.le), _b(_o.gt), _b(_o.ge)
    __add__, __radd__, __sub__, __mul__, __rmul__, __truediv__ = _b(_o.add), _b(_o.add, True), _b(_o.sub), _b(_o.mul), _b(_o.mul, True), _b(_o.truediv)
    del _b, _o

    def isna(self): return Group(self.n, (lambda f: lambda i: S(lift(f(i)).nan) if lift(f(i)).nan is not None else S(z3.BoolVal(False)))(self.f), self.member)

    def __pydv_reduce__(self, op):
        f, m = self.f, self.member
        p = lift(f(S(fresh(INT, 'p'))))
        if z3.is_bool(p.t):
            if op == 'sum':
                return arr.reduce_1('count', self.n, f, member=lambda i: And(m(i), S(sym.truth(f(i)))))
            if op == 'mean':
                return arr.reduce_1('count', self.n, f, member=lambda i: And(m(i), S(sym.truth(f(i))))) / arr.reduce_1('count', self.n, f, member=m)
        return arr.reduce_1(op, self.n, f, skipna=True, member=m)

    def sum(self, *a, **k): return self.__pydv_reduce__('sum')
    def mean(self, *a, **k): return self.__pydv_reduce__('mean')
    def min(self, *a, **k): return self.__pydv_reduce__('min')
    def max(self, *a, **k): return self.__pydv_reduce__('max')
    def any(self, *a, **k): return self.__pydv_reduce__('any')
    def all(self, *a, **k): return self.__pydv_reduce__('all')
    def count(self, *a, **k): return arr.reduce_1('count', self.n, self.f, member=self.member)
    def __pydv_len__(self): return arr.reduce_1('count', self.n, self.f, member=self.member)
    @property
    def values(self): return self

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('group method ' + k)


class SymColsOf(SymCols):
    """the labels of a row index used as columns"""
    def __init__(self, ix):
        SymCols.__init__(self, ix.n, ix.key)
        self.ix = ix

    def same(self, o):
        return self is o or (isinstance(o, SymColsOf) and self.ix.same(o.ix))


def ncols(c):
    return len(c) if isinstance(c, pd.Index) else c.n


def as_cols(c):
    if isinstance(c, (pd.Index, SymCols)):
        return c
    if isinstance(c, Index):
        return SymColsOf(c)
    if isinstance(c, (list, tuple, range, np.ndarray)) and not needs_sym(c):
        return pd.Index(c)
    import load
    if isinstance(c, load.Seq):
        return SymCols(c.n, lambda j: c.fn(j))
    if isinstance(c, Arr):
        return SymCols(c.shape[0], c.snapshot())
    raise Unsupported('column labels from %s' % type(c).__name__)


def row_sel(k):
    if isinstance(k, Series):
        return k.a
    if isinstance(k, (Index,)):
        return k.__pydv_array__()
    if isinstance(k, pd.Series):
        return k.values
    return k


class ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, key):
        o = self.o
        if isinstance(o, Series):
            k = row_sel(key)
            if is_int(k):
                return o.a[k]
            return Series(o.a[k], o.index[k], o.name)
        r, c = key if isinstance(key, tuple) else (key, slice(None))
        r = row_sel(r)
        f = o
        if not (isinstance(c, slice) and c == slice(None)):
            if o.cl is not None:
                pos = np.arange(len(o.cl))[concrete_sel(c)]
                if np.ndim(pos) == 0:
                    s = Series(o.cl[pos], o.index, o._columns[pos])
                    return s if isinstance(r, slice) and r == slice(None) else s.iloc[r]
                f = Frame([o.cl[p] for p in pos], o.index, o._columns[pos])
            elif is_int(c):
                s = Series(o.a2[:, c], o.index)
                return s if isinstance(r, slice) and r == slice(None) else s.iloc[r]
            elif isinstance(c, slice):
                a = o.a2[:, c]
                f = Frame(a, o.index, SymCols(a.shape[1]))
            else:
                raise Unsupported('column selection')
        if is_int(r):
            r = arr.norm_int(r, o.index.n)
            row = f.values[r]
            return Series(row, as_index(f.columns) if isinstance(f.columns, pd.Index) else None, f.index.key(r))
        return f.rows(r)

    def __setitem__(self, key, v):
        raise Unsupported('iloc assignment')


def concrete_sel(c):
    if isinstance(c, (slice, int, np.integer)):
        return c
    if isinstance(c, (list, np.ndarray)) and not needs_sym(c):
        return np.asarray(c, dtype=int) if len(c) == 0 else np.asarray(c)
    raise Unsupported('symbolic column selection')


def is_int(k):
    return (isinstance(k, (int, np.integer)) and not isinstance(k, (bool, np.bool_))) or (isinstance(k, S) and not z3.is_bool(k.t))


class Loc:
    def __init__(self, o):
        self.o = o

    def _rows(self, r):
        if isinstance(r, Series) and not r.index.same(self.o.index):
            raise Unsupported('selection by a series with another index')
        r = row_sel(r)
        if isinstance(r, slice) and r == slice(None):
            return r
        if isinstance(r, (Arr, np.ndarray, list)) and arr.is_bool_key(as_arr(r)):
            return as_arr(r)
        raise Unsupported('loc by row label')

    def __getitem__(self, key):
        o = self.o
        if isinstance(o, Series):
            k = self._rows(key)
            return Series(o.a[k], o.index[k], o.name)
        r, c = key if isinstance(key, tuple) else (key, slice(None))
        r = self._rows(r)
        f = o
        if isinstance(c, slice) and c == slice(None):
            pass
        elif isinstance(c, tuple) and isinstance(o._columns, pd.MultiIndex):
            pos = [i for i, l in enumerate(o._columns) if all(isinstance(w, slice) or w == q for w, q in zip(c, l))]
            f = Frame([o.cl[p] for p in pos], o.index, o._columns[pos])
        elif isinstance(c, (list, pd.Index, np.ndarray)):
            if arr.is_bool_key(np.asarray(c)):
                c = o._columns[np.asarray(c)]
            f = o.pick(list(c))
        else:
            f = o.col(c)
        if isinstance(r, slice):
            return f if isinstance(f, Series) else Frame(f.cl if f.cl is not None else f.a2, f.index, f._columns)
        return f.rows(r) if isinstance(f, Frame) else f.loc[r]

    def __setitem__(self, key, v):
        o = self.o
        if isinstance(o, Series):
            raise Unsupported('loc assignment to a series')
        r, c = key if isinstance(key, tuple) else (key, slice(None))
        if not (isinstance(r, slice) and r == slice(None)):
            r = self._rows(r)
            if isinstance(c, (str, int)) and not is_frame(v) and as_arr(v).ndim == 0:
                p = o.pos([c])[0]
                a = o.cl[p].copy()
                a[r] = v
                o.cl[p] = a
                return
            raise Unsupported('loc assignment to selected rows')
        if isinstance(c, tuple) and isinstance(o._columns, pd.MultiIndex):
            pos = [i for i, l in enumerate(o._columns) if all(isinstance(w, slice) or w == q for w, q in zip(c, l))]
            if is_frame(v):
                raise Unsupported('aligned multi-column assignment')
            v = as_arr(v)
            for q, p in enumerate(pos):
                o.cl[p] = v[:, q].copy()
            return
        if isinstance(c, (list, pd.Index)):
            if is_frame(v):
                raise Unsupported('aligned multi-column assignment')
            v = as_arr(v)
            for q, p in enumerate(o.pos(list(c))):
                o.cl[p] = v[:, q].copy()
            return
        o[c] = v


# ---------------------------------------------------------------- module functions
def DataFrame(data=None, index=None, columns=None, **k):
    if data is None:
        ix = as_index(index)
        return Frame([Arr((ix.n,), lambda i: float('nan'), 'f') for _ in (columns if columns is not None else [])], ix, pd.Index([]) if columns is None else as_cols(columns))
    if isinstance(data, Frame):
        if columns is None and index is None:
            return data.copy()
        raise Unsupported('DataFrame of a DataFrame with labels')
    if isinstance(data, Series):
        if columns is not None:
            # a Series with another name than the column asked for
            cols = as_cols(columns)
            if data.name is None or list(cols) == [data.name]:
                return Frame([data.a], data.index, cols)
            raise Unsupported('DataFrame of a named series with columns')
        return Frame([data.a], data.index, pd.Index([data.name if data.name is not None else 0]))
    if isinstance(data, dict):
        cs = [as_arr(v) for v in data.values()]
        ix = as_index(index, cs[0].shape[0]) if index is not None or cs else as_index(index)
        for v in data.values():
            if isinstance(v, Series):
                ix = v.index if index is None else ix
        return Frame(cs, ix, pd.Index(list(data.keys())))
    a = as_arr(data)
    if a.ndim == 0:
        v = a.scalar()
        a = Arr((as_index(index).n, ncols(as_cols(columns))), lambda i, j: v, a.kind)
    if a.ndim == 1:
        a = a[:, None]
    if a.ndim != 2:
        raise ValueError('Must pass 2-d input')
    ix = as_index(index, a.shape[0])
    if columns is None:
        cols = pd.RangeIndex(a.shape[1]) if isinstance(a.shape[1], int) else SymCols(a.shape[1], lambda j: lift(j))
    else:
        cols = as_cols(columns)
    if not dim_same(a.shape[0], ix.n) or not dim_same(a.shape[1], ncols(cols)):
        raise ValueError('Shape of passed values is (%s), indices imply (%s, %s)' % (a.shape, ix.n, ncols(cols)))
    return Frame(a, ix, cols)


def mkSeries(data=None, index=None, name=None, **k):
    return Series(as_arr(data), index, name)


def concat(objs, axis=0, names=None, keys=None, **k):
    if isinstance(objs, dict):
        keys, objs = list(objs.keys()), list(objs.values())
    import load
    if isinstance(objs, load.Seq):
        raise Unsupported('concat of a symbolic number of tables')
    objs = [o for o in objs if o is not None]
    if keys is None:
        objs = [DataFrame(o.values, index=o.index, columns=o.columns) if isinstance(o, pd.DataFrame) else o for o in objs]
    if axis in (1, 'columns'):
        ix = None
        if keys is None and len(objs) > 1:
            # a table without rows and columns adds nothing
            objs = [o for o in objs if not (isinstance(o, Frame) and o.cl == [] and norm(o.index.n) == 0 and isinstance(norm(o.index.n), int))] or objs[:1]
        for o in objs:
            if ix is None:
                ix = o.index
            elif not ix.same(o.index):
                raise Unsupported('column concatenation of tables with different indexes')
        if keys is not None:
            if all(isinstance(o, Series) for o in objs):
                return Frame([o.a for o in objs], ix, pd.Index(keys))
            if all(o.cl is not None for o in objs):
                cols = [((kk,) if not isinstance(kk, tuple) else kk) + ((c,) if not isinstance(c, tuple) else c) for kk, o in zip(keys, objs) for c in o.columns]
                return Frame([c for o in objs for c in o.cl], ix, pd.MultiIndex.from_tuples(cols, names=(names + [None] * 9)[:len(cols[0])] if names else None) if cols else pd.Index([]))
            return Keyed(keys, objs, ix)
        cl, cols, noname = [], [], 0
        for o in objs:
            if isinstance(o, Series):
                cl.append(o.a)
                if o.name is None:
                    cols.append(noname)
                    noname += 1
                else:
                    cols.append(o.name)
            else:
                if o.cl is None:
                    if len([q for q in objs if ncols(q.columns) != 0]) == 1:
                        return o
                    raise Unsupported('column concatenation of a symbolic number of columns')
                cl += o.cl
                cols += list(o.columns)
        return Frame(cl, ix, pd.Index(cols))
    if keys is not None:
        raise Unsupported('keyed row concatenation')
    if all(isinstance(o, Series) for o in objs):
        return Series(arr.concatenate([o.a for o in objs], 0), cat_index([o.index for o in objs]), objs[0].name)
    c0 = objs[0].columns
    if not all(same_cols(c0, o.columns) for o in objs[1:]):
        raise Unsupported('row concatenation of tables with different columns')
    ix = cat_index([o.index for o in objs])
    if objs[0].cl is not None:
        return Frame([arr.concatenate([o.cl[j] for o in objs], 0) for j in range(len(c0))], ix, c0)
    return Frame(arr.concatenate([o.a2 for o in objs], 0), ix, c0)


def cat_index(l):
    a = arr.concatenate([x.__pydv_array__() for x in l], 0)
    return Index(a.shape[0], a.snapshot(), l[0].kind)


class Keyed:
    """column concatenation with outer keys over tables with symbolic columns"""
    __pydv_sym__ = True

    def __init__(self, keys, objs, ix):
        self.keys_, self.objs, self.index = keys, objs, ix

    def __getitem__(self, k):
        return self.objs[self.keys_.index(k)]


def to_timedelta(x, *a, **k):
    return lift(x) if isinstance(x, S) else pd.to_timedelta(x, *a, **k)


def Timedelta(x, *a, **k):
    return x if isinstance(x, S) else pd.Timedelta(x, *a, **k)


def date_range(start, end=None, periods=None, **k):
    """n equally spaced stamps from start to end, both included"""
    if k:
        raise Unsupported('date_range with %s' % list(k))
    start, end = lift(start), lift(end)
    n = norm(periods)
    return Index(n, lambda i: S(z3.If(numterm(lift(n)) == 1, start.t, numterm(start + (end - start) * lift(i) // (lift(n) - 1)))), 'time')


class _M(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or cls._sym(x)

    def __call__(cls, *a, **k):
        if any(needs_sym(v) for v in a) or any(needs_sym(v) for v in k.values()):
            return cls._make(*a, **k)
        return cls._real(*a, **k)

    def __getattr__(cls, k):
        v = getattr(cls._real, k)
        if callable(v):
            def g(*a, **kw):
                if any(needs_sym(q) for q in a) or any(needs_sym(q) for q in kw.values()):
                    t = cls._cm.get(k)
                    if t is None:
                        raise Unsupported('pandas %s.%s on symbolic values' % (cls.__name__, k))
                    return t(*a, **kw)
                return v(*a, **kw)
            return g
        return v

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


def _cls(name, real, make, s, cm=None):
    return _M(name, (), dict(_real=real, _make=staticmethod(make), _sym=staticmethod(s), _cm=cm or {}))


def from_product(l, names=None):
    a, b = l
    na = ncols(as_cols(a))
    nb = ncols(as_cols(b)) if not isinstance(b, Arr) else b.shape[0]
    la = (lambda i: list(a)[norm(i)]) if isinstance(norm(na), int) and not isinstance(a, SymCols) else as_cols(a).label
    bb = as_arr(b)
    c = SymCols(norm(lift(na) * nb), names=names)
    c.levels_ = (a, b)
    c.product = (na, nb)
    return c


PD = types.ModuleType('pandas')
PD.DataFrame = _cls('DataFrame', pd.DataFrame, DataFrame, lambda x: isinstance(x, Frame))
PD.Series = _cls('Series', pd.Series, mkSeries, lambda x: isinstance(x, Series))
PD.Index = _cls('Index', pd.Index, lambda x, **k: x if isinstance(x, Index) else as_index(x), lambda x: isinstance(x, (Index, SymCols)))
PD.DatetimeIndex = _cls('DatetimeIndex', pd.DatetimeIndex, lambda x, **k: x, lambda x: isinstance(x, Index) and x.kind == 'time')
PD.MultiIndex = _cls('MultiIndex', pd.MultiIndex, lambda *a, **k: arr._uns('MultiIndex'), lambda x: isinstance(x, SymCols) and bool(x.levels_), dict(from_product=from_product))


def _wrap(name, f):
    r = getattr(pd, name)

    def g(*a, **k):
        if any(needs_sym(v) for v in a) or any(needs_sym(v) for v in k.values()):
            return f(*a, **k)
        return r(*a, **k)
    return g


for _n, _f in dict(concat=concat, to_timedelta=to_timedelta, date_range=date_range).items():
    setattr(PD, _n, _wrap(_n, _f))
PD.Timedelta = _cls('Timedelta', pd.Timedelta, Timedelta, lambda x: False)
PD.Timestamp = _cls('Timestamp', pd.Timestamp, lambda x, *a, **k: x, lambda x: False)


def _pd_getattr(k):
    r = getattr(pd, k)
    if callable(r) and not isinstance(r, type):
        def g(*a, **kw):
            if any(needs_sym(v) for v in a) or any(needs_sym(v) for v in kw.values()):
                raise Unsupported('pandas.%s on symbolic values' % k)
            return r(*a, **kw)
        return g
    return r


PD.__getattr__ = _pd_getattr
