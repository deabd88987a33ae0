"""C02: rows of the formatted tables, for all row counts and all patterns of missing values; calendar columns."""
from core import *
import frame, sym
import pandas as pd
ASSUMPTIONS = ['the index has no repeated label', 'a transformer returns a table over the rows it was given (proved in C01); column layouts are enumerated, rows and values are arbitrary',
               'hour, minute, day of week and UTC offset of a time label are functions of the label', 'a thread pool returns results in the order of the requests',
               'the calendar columns are asked for a table with at least one complete row']
F = 'pyforecaster.formatter'
FN = ['pyforecaster/formatter.py: Formatter._transform, Formatter.transform, Formatter._transform_']


def W_rows(h, m):
    b = dict(dt=60, tz=None, cols=['a', 'b'], nans=[[5, 0], [11, 1]], give_dt=True, tf=True, fresh=True, par=True)
    c1 = dict(names=['a', 'b'], lags=[2, 0])
    c2 = dict(names=['b'], functions=['mean'], agg=3, lags=[1])
    t1, t2 = dict(names=['a'], lags=[-1, -3]), dict(names=['b'], lags=[-2])
    return [dict(case='format', params=dict(b, seed=i, n=n, cfgs=cf, tcfgs=tf)) for i, (n, cf, tf) in enumerate(((30, [c1, c2], [t1]), (25, [c2], [t1, t2]), (40, [c1], [t2]), (30, [], [t1])))] + W_clock(h, m)


def W_clock(h, m):
    return [dict(case='clock', params=dict(seed=i, n=24, dt=60, tz=tz)) for i, tz in enumerate((None, 'Europe/Zurich', 'UTC'))]


class Tr:
    """stands for a transformer: a function from the table to generated columns over the same rows"""
    def __init__(self, cols, n, tag):
        self.cols, self.tag = cols, tag
        self.arrs = [nanable('%s_%s' % (tag, c), n) for c in cols]
        self.seen = []

    def transform(self, x, augment=True, simulate=False):
        self.seen.append(list(x.columns))
        t = frame.Frame([a.copy() for a in self.arrs], x.index, pd.Index(self.cols))
        return frame.concat([x, t], axis=1) if augment else t


def nanable(name, n):
    v, m = symbolic(name, (n,)), symbolic(name + '_missing', (n,), 'b')
    vs, ms = v.snapshot(), m.snapshot()
    return Arr((n,), lambda i: S(sym.real(numterm(vs(i))), boolterm(ms(i))), 'f')


def there(a):
    sn = a.snapshot()

    def f(i):
        v = lift(sn(i))
        return S(z3.Not(v.nan)) if v.nan is not None else S(z3.BoolVal(True))
    return f


class Pool:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, f, *its): return [f(*a) for a in zip(*its)]


LAYOUTS = {'one feature, one target': ([['f']], [['y']]), 'two transformers, two targets': ([['f', 'g'], ['h']], [['y'], ['z1', 'z2']]),
           'no features': ([], [['y1', 'y2']]), 'three transformers': ([['f'], ['g'], ['k', 'l']], [['y']])}


def make(h, lay, augment=True, tz=None):
    f = h.module(F)
    f.concurrent = type('C', (), {'futures': type('F', (), {'ThreadPoolExecutor': Pool})})
    fm = f.Formatter(n_parallel=1, augment=augment)
    n = sint('rows', 1)
    ix = frame.time_index('t', n)
    ix.tz = tz
    x = frame.Frame([nanable('a', n), nanable('b', n)], ix, pd.Index(['a', 'b']))
    fm.transformers = [Tr(c, n, 'feature%d' % i) for i, c in enumerate(lay[0])]
    fm.target_transformers = [Tr(c, n, 'target%d' % i) for i, c in enumerate(lay[1])]
    feats = {c: a for t in fm.transformers for c, a in zip(t.cols, t.arrs)}
    targs = {c: a for t in fm.target_transformers for c, a in zip(t.cols, t.arrs)}
    return fm, n, ix, x, feats, targs


def selection(h, what, got, ix, n, keep, cols):
    """got = the rows of the input where keep holds, in order, with the given columns"""
    m = Arr((n,), keep, 'b')
    h.ensure('%s: columns' % what, list(got.columns) == list(cols))
    want = ix[m]
    h.ensure('%s: exactly the rows asked for, in the order of the input' % what, got.index.equal(want))
    for c, a in cols.items():
        h.ensure('%s: column %s has the values of its rows' % (what, c), equal_arrays(got[c].values, a[m]))


def run(h, lay, augment, parallel):
    fm, n, ix, x, feats, targs = make(h, lay, augment)
    x0 = x.copy()
    okf = lambda i: And(True, *[there(a)(i) for a in feats.values()])
    okt = lambda i: And(True, *[there(a)(i) for a in targs.values()])
    base = {'a': x0['a'].a, 'b': x0['b'].a}
    full = dict(base, **feats) if augment else dict(feats)
    g, t = fm._transform(x, time_features=False, parallel=parallel)
    selection(h, 'features', g, ix, n, lambda i: And(okf(i), okt(i)), full)
    selection(h, 'targets', t, ix, n, lambda i: And(okf(i), okt(i)), targs)
    h.ensure('features and targets have the same rows', g.index.equal(t.index))
    for c in feats:
        h.ensure('no missing value in feature %s' % c, forall(lambda i: there(g[c].a)(i), (0, g.index.n)))
    for c in targs:
        h.ensure('no missing value in target %s' % c, forall(lambda i: there(t[c].a)(i), (0, t.index.n)))
    h.ensure('the input is left as it was', And(list(x.columns) == ['a', 'b'], *[equal_arrays(x[c].a, x0[c].a) for c in ('a', 'b')]))
    g2, _ = fm.transform(x, time_features=False, return_target=False)
    selection(h, 'features without targets', g2, ix, n, okf, full)


for _n, _l in LAYOUTS.items():
    for _a, _p in ((True, False), (True, True), (False, False)):
        if _l[0] or _a:
            contract('rows, %s%s%s' % (_n, '' if _a else ', generated columns only', ', in parallel' if _p else ''), FN, W_rows)(lambda h, l=_l, a=_a, p=_p: run(h, l, a, p))


def calendar(h, tz, known):
    f = h.module(F)
    fm = f.Formatter(n_parallel=1)
    fm.timezone = known
    n = sint('rows', 1)
    ix = frame.time_index('t', n, increasing=False)
    ix.tz = tz
    x = table('x', n, ix, ['a'])
    x0 = x.copy()
    g = fm.add_time_features(x)
    off = bool(tz) if known is None else known
    h.ensure('columns', list(g.columns) == ['a', 'hour', 'dayofweek', 'minuteofday'] + (['utc_offset'] if off else []))
    h.ensure('rows keep their labels', g.index.equal(ix))
    h.ensure('original column', equal_arrays(g['a'].values, x0['a'].a))
    st = lambda i: frame.Stamp(ix.key(i), tz)
    h.ensure('hour', forall(lambda i: lift(g['hour'].a.read(i)) == st(i).hour, (0, n)))
    h.ensure('day of the week', forall(lambda i: lift(g['dayofweek'].a.read(i)) == st(i).dayofweek, (0, n)))
    h.ensure('minute of the day', forall(lambda i: lift(g['minuteofday'].a.read(i)) == st(i).hour * 60 + st(i).minute, (0, n)))
    if off and tz:
        h.ensure('offset from UTC in hours', forall(lambda i: lift(g['utc_offset'].a.read(i)) == st(i).utcoffset().total_seconds() / 3600, (0, n)))
    h.ensure('the formatter remembers whether there was a time zone', fm.timezone is off)


for _n, _tz, _k in (('local times', None, None), ('zoned times', 'zone', None), ('zoned times again', 'zone', True), ('local times again', None, False), ('zoned times after local ones', 'zone', False)):
    contract('calendar columns, %s' % _n, ['pyforecaster/formatter.py: Formatter.add_time_features'], W_clock)(lambda h, t=_tz, k=_k: calendar(h, t, k))


@contract('calendar columns of the rows kept', FN + ['pyforecaster/formatter.py: Formatter.add_time_features'], W_rows)
def kept(h):
    fm, n, ix, x, feats, targs = make(h, LAYOUTS['two transformers, two targets'])
    p = ghost('complete', 'i', 'i')
    sym.WITNESS.append(p.d.get_id())
    r = p(0)
    h.assume(And(r >= 0, r < n, *[there(a)(r) for a in list(feats.values()) + list(targs.values())]))
    g, t = fm.transform(x)
    h.ensure('same rows', g.index.equal(t.index))
    h.ensure('calendar columns last', list(g.columns)[-3:] == ['hour', 'dayofweek', 'minuteofday'])
    st = lambda i: frame.Stamp(g.index.key(i))
    h.ensure('hour', forall(lambda i: lift(g['hour'].a.read(i)) == st(i).hour, (0, g.index.n)))
    h.ensure('day of the week', forall(lambda i: lift(g['dayofweek'].a.read(i)) == st(i).dayofweek, (0, g.index.n)))
    h.ensure('minute of the day', forall(lambda i: lift(g['minuteofday'].a.read(i)) == st(i).hour * 60 + st(i).minute, (0, g.index.n)))
