"""C18: memory reduction and parallel mapping on the real functions. The two execution back ends (ray, multiprocessing) are replaced by
stand-ins that pickle each piece, call the function and return the results in request order (what those libraries guarantee)."""
import pickle
from common import *
import pyforecaster.big_data_utils as B
import cloudpickle


class FakeRay:
    def __init__(self):
        self.up, self.calls = False, 0

    def is_initialized(self):
        return self.up

    def init(self, *a, **k):
        self.up = True

    def shutdown(self):
        self.up = False

    def remote(self, f):
        outer = self

        class R:
            def remote(self, *a):
                outer.calls += 1
                g, b = cloudpickle.loads(cloudpickle.dumps((f, a)))
                return lambda: cloudpickle.loads(cloudpickle.dumps(g(*b)))
        return R()

    def get(self, l):
        l = list(l)
        out = {}
        for i in reversed(range(len(l))):       # completion order is not request order
            out[i] = l[i]()
        return [out[i] for i in range(len(l))]


class FakePool:
    def __init__(self, n=None):
        self.n = n

    def starmap_async(self, f, args):
        f = cloudpickle.loads(cloudpickle.dumps(f))
        args = cloudpickle.loads(cloudpickle.dumps(list(args)))
        out = [f(*a) for a in args]

        class R:
            def get(self_):
                return out
        return R()

    def starmap(self, f, args):
        return self.starmap_async(f, args).get()

    def map(self, f, args):
        return self.starmap(f, [(a,) for a in args])

    def close(self):
        pass
    join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class backends:
    def __enter__(self):
        self.o = {k: getattr(B, k) for k in ('ray', 'Pool', 'cpu_count') if hasattr(B, k)}
        for k in ('ray', 'Pool', 'cpu_count'):
            if k not in self.o:
                raise Skip('back end %s is not used any more' % k)
        B.ray, B.Pool, B.cpu_count = FakeRay(), FakePool, lambda: 4

    def __exit__(self, *a):
        for k, v in self.o.items():
            setattr(B, k, v)
        return False


INTS = [0, 1, -1, 126, 127, 128, -127, -128, -129, 32766, 32767, 32768, -32767, -32768, -32769, 2**24 + 1, 2**31 - 2, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**53 + 1, 2**63 - 2, 2**63 - 1, -2**63]
FLOATS = [0., -0., .1, 1e-30, 1e-40, 3.4e38, 3.4028234e38, 3.4028235e38, 3.5e38, -3.5e38, 1e300, np.inf, -np.inf, np.nan, 16777217., 2.5, -7.25, 65504., 65520.]


def make_table(p):
    g = np.random.default_rng(p['seed'])
    n = p['n']
    d = {}
    for j, k in enumerate(p['kinds']):
        if k == 'i':
            mag = int(g.choice([3, 130, 40000, 2**31 + 10, 2**62]))
            v = g.integers(-mag, mag, n) if g.random() < .7 else g.integers(0, mag, n)
        elif k == 'I':
            v = np.array([INTS[i] for i in g.integers(0, len(INTS), n)], dtype='int64')
        elif k == 'e':
            e = [INTS[int(g.integers(len(INTS)))]]
            v = np.array([e[0]] * n, dtype='int64')
        elif k == 'i16':
            v = g.integers(-32768, 32768, n).astype('int16')
        elif k == 'u':
            v = g.integers(0, 2**64 - 1, n, dtype='uint64')
        elif k == 'f':
            v = g.normal(size=n) * 10. ** g.integers(-3, 9)
        elif k == 'F':
            v = np.array([FLOATS[i] for i in g.integers(0, len(FLOATS), n)])
        elif k == 'h':
            v = g.normal(size=n).astype('float16')
        elif k == 'n':
            v = np.full(n, np.nan)
        elif k == 'b':
            v = g.random(n) < .5
        elif k == 'o':
            v = np.array(['s%d' % i for i in g.integers(0, 9, n)], dtype=object)
        else:
            v = pd.date_range('2020-01-01', periods=n, freq='1h').values
        d[j] = v
    df = pd.DataFrame(d)
    names = [int(i) for i in g.permutation(len(d))] if p['cols'] == 'i' else ['c%02d' % i for i in g.permutation(len(d))]
    if p['cols'] == 'm':
        df.columns = pd.MultiIndex.from_tuples([(c, i % 2) for i, c in enumerate(names)])
    else:
        df.columns = names
    if p['idx'] == 't':
        df.index = pd.date_range('2021-03-28', periods=n, freq='30min', tz='Europe/Zurich')
    elif p['idx'] == 'p':
        df.index = [int(i) for i in g.permutation(n)]
    return df


def same(a, b, what):
    """b reduced from a"""
    check(isinstance(b, pd.DataFrame), '%s: result is a %s' % (what, type(b).__name__))
    check(a.shape == b.shape, '%s: shape %s became %s' % (what, a.shape, b.shape))
    check(list(a.columns) == list(b.columns), '%s: column labels changed: %s -> %s' % (what, list(a.columns)[:8], list(b.columns)[:8]))
    check(list(a.index) == list(b.index), '%s: row labels changed' % what)
    for j in range(a.shape[1]):
        u, v = a.iloc[:, j], b.iloc[:, j]
        if u.dtype.kind in 'iu':
            bad = [(int(s), t) for s, t in zip(u, v) if int(s) != t or (v.dtype.kind == 'f' and int(t) != int(s))]
            check(not bad, '%s: integer values changed: %s (column type %s -> %s)' % (what, bad[:3], u.dtype, v.dtype))
        elif u.dtype.kind == 'f':
            x, y = u.values.astype(float), v.values.astype(float)
            with np.errstate(over='ignore'):
                r = x.astype('float32').astype(float)
            out = np.isinf(r) & ~np.isinf(x)
            check(np.array_equal(np.isnan(x), np.isnan(y)), '%s: missing values changed' % what)
            m = ~np.isnan(x)
            ok = np.where(out, x == y, (x == y) | (np.abs(y - x) <= np.abs(r - x) * 1.0001))
            check(ok[m].all(), '%s: float values changed beyond single-precision rounding: %s -> %s' % (what, x[m][~ok[m]][:3], y[m][~ok[m]][:3]))
        else:
            check(all(s == t for s, t in zip(u, v)), '%s: values of a %s column changed' % (what, u.dtype))


def run_reduce(p):
    df = make_table(p)
    keep = df.copy(deep=True)
    with backends():
        same(keep, quiet(B.reduce_mem_usage_df, df), 'table reduction')
        check(df.equals(keep) and list(df.dtypes) == list(keep.dtypes), 'table reduction changed the table of the caller')
        if p['mode'] == 'ray':
            same(keep, quiet(B.reduce_mem_usage, df, parallel=True, use_ray=True), 'ray reduction')
        elif p['mode'] == 'mp':
            same(keep, quiet(B.reduce_mem_usage, df, parallel=True, use_ray=False), 'process reduction')
        else:
            same(keep, quiet(B.reduce_mem_usage, df.copy(), parallel=False), 'serial reduction')
        for c in range(df.shape[1]):
            s = df.iloc[:, c]
            same(s.to_frame(), B.reduce_mem_usage_series(s).to_frame(), 'series reduction')
    num = df[[c for c in df.columns if df[c].dtype.kind in 'f']]
    if num.shape[1]:
        r = quiet(B.reduce_mem_usage_np, num.values)
        same(pd.DataFrame(num.values), pd.DataFrame(r), 'array reduction')
    return ['reduce', p['mode'], p['cols'], p['idx'], ''.join(sorted(set(p['kinds'])))]


def gen_reduce(rng, i, tier):
    k = rng.randint(1, 9)
    return dict(seed=rng.randrange(10**6), n=rng.choice([1, 2, 7, 30]), kinds=[rng.choice(['i', 'I', 'e', 'e', 'i16', 'u', 'f', 'F', 'F', 'h', 'n', 'b', 'o', 'd']) for _ in range(k)], cols=rng.choice('iism'), idx=rng.choice('rtp'),
                mode=['ray', 'mp', 'serial'][i % 3])


def run_split(p):
    g = np.random.default_rng(p['seed'])
    a = g.integers(0, 99, (p['n'], p['m']))
    if p['df']:
        a = pd.DataFrame(a, columns=['c%d' % i for i in g.permutation(p['m'])], index=[int(i) for i in g.permutation(p['n'])])
        a['s'] = 'x'
    out = B.array_split(a, p['k'], axis=p['axis'])
    check(len(out) == p['k'], '%d pieces for %d requested' % (len(out), p['k']))
    if p['df']:
        back = pd.concat(out, axis=p['axis'])
        check(back.equals(a) and list(back.columns) == list(a.columns) and list(back.index) == list(a.index) and all(list(o.dtypes) == list(a[o.columns].dtypes) for o in out), 'pieces do not cover the table in order')
    else:
        check(np.array_equal(np.concatenate(out, axis=p['axis']), a) and all(o.dtype == a.dtype for o in out), 'pieces do not cover the array in order')
    sz = [o.shape[p['axis']] for o in out]
    check(max(sz) - min(sz) <= 1, 'pieces of sizes %s' % sz)
    return ['split', p['df'], p['axis'], p['k'] > a.shape[p['axis']]]


def gen_split(rng, i, tier):
    return dict(seed=rng.randrange(10**6), n=rng.randint(1, 40), m=rng.randint(1, 12), k=rng.randint(1, 13), axis=rng.choice([0, 1]), df=rng.random() < .5)


def f_add(x):
    return x + 1.5


def f_sq(x):
    return x * x


def f_rowrank(x):
    return x - x.values.mean(axis=1, keepdims=True)


def f_colmean(x):
    return x - x.values.mean(axis=0, keepdims=True)


def f_np_rowcum(x):
    return np.cumsum(np.asarray(x), axis=1)


def f_np_colcum(x):
    return np.cumsum(np.asarray(x), axis=0)


def f_pair(x):
    return x * 2, x[x.columns[:1]] if x.shape[1] else x


FS = {('cell', 0): [f_add, f_sq], ('cell', 1): [f_add, f_sq], ('df', 0): [f_rowrank], ('df', 1): [f_colmean], ('np', 0): [f_np_rowcum], ('np', 1): [f_np_colcum]}


def run_map(p):
    g = np.random.default_rng(p['seed'])
    df = pd.DataFrame(g.normal(size=(p['n'], p['m'])), columns=['c%02d' % i for i in g.permutation(p['m'])],
                      index=pd.date_range('2021-01-01', periods=p['n'], freq='1h', tz=p['tz'])[::-1] if p['idx'] == 't' else [int(i) for i in g.permutation(p['n'])])
    f = FS[(p['kind'], p['axis'])][p['seed'] % len(FS[(p['kind'], p['axis'])])]
    exp = f(df)
    keep = df.copy()
    arg = df
    if p['aslist']:
        cut = sorted(set(int(v) for v in g.integers(1, df.shape[p['axis']], 2))) if df.shape[p['axis']] > 1 else []
        edges = [0] + cut + [df.shape[p['axis']]]
        arg = [df.iloc[a:b] if p['axis'] == 0 else df.iloc[:, a:b] for a, b in zip(edges, edges[1:])]
    with backends():
        res = quiet(B.fdf_parallel, f, arg, p['k'], axis=p['axis'], use_ray=p['ray'])
    check(close(np.asarray(res), np.asarray(exp)), 'mapping %s over the pieces gives another result (shape %s, expected %s)' % (f.__name__, np.asarray(res).shape, np.asarray(exp).shape))
    if isinstance(exp, pd.DataFrame) and isinstance(res, pd.DataFrame):
        check(list(res.columns) == list(exp.columns) and list(res.index) == list(exp.index), 'mapping %s changes the labels: %s %s' % (f.__name__, list(res.columns)[:5], list(res.index)[:5]))
    elif isinstance(exp, pd.DataFrame):
        raise Violation('the mapped table lost its labels')
    check(df.equals(keep), 'mapping changed the table of the caller')
    return ['map', f.__name__, p['axis'], p['ray'], p['aslist'], p['m'] > (p['k'] or 4)]


def gen_map(rng, i, tier):
    n, m = rng.choice([(12, 7), (30, 3), (5, 20), (1, 4), (8, 1)])
    ray = rng.random() < .6
    return dict(seed=rng.randrange(10**6), n=n, m=m, k=rng.randint(1, min(n, m) + 2) if rng.random() < .7 else None, axis=rng.choice([0, 1]), ray=ray, aslist=rng.random() < .3, kind=rng.choice(['cell', 'df', 'np'] if ray else ['cell', 'np', 'df']), idx=rng.choice('ti'), tz=rng.choice([None, 'Europe/Zurich']))


def run_tuple(p):
    g = np.random.default_rng(p['seed'])
    df = pd.DataFrame(g.normal(size=(p['n'], p['m'])), columns=['c%02d' % i for i in range(p['m'])])
    with backends():
        a, b = quiet(B.fdf_parallel, lambda x: (x * 2, x.iloc[:, [0]] - 1), df, p['k'], axis=0)
        l = quiet(B.fdf_parallel, f_add, df, p['k'], axis=0, recast=False)
    check(close(a.values, df.values * 2) and list(a.index) == list(df.index), 'first table of a mapped pair differs')
    check(close(b.values, df.values[:, :1] - 1) and list(b.index) == list(df.index), 'second table of a mapped pair differs')
    check(close(pd.concat(l).values, df.values + 1.5), 'unassembled pieces differ')
    return ['tuple', p['m'] > (p['k'] or 4)]


RULE = 'random tables over integer limits, extreme floats, missing values, label kinds, piece counts, back ends; distinct = distinct (operation, back end, labels, column kinds)'
CASES = [Case('reduce', gen_reduce, run_reduce, 90, 1500, rule=RULE), Case('split', gen_split, run_split, 80, 1500, rule=RULE), Case('map', gen_map, run_map, 70, 900, rule=RULE), Case('tuple', gen_map, run_tuple, 10, 100, rule=RULE)]
