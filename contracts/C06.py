"""C06: the labelled quantile table and the quantile array hold the same numbers, for all numbers of rows, targets and levels."""
from core import *
import frame, arr as A
import pandas as pd
ASSUMPTIONS = ['target names and levels are without repetitions', 'np.histogram counts the members of half-open cells, the last one closed (library)',
               'a library quantile forest returns, per row, one value per (target, level) it was trained for and asked for; with a single target it leaves out the target axis, with the mean the level axis',
               'pandas and numpy operations as modelled in pydv/frame.py and pydv/arr.py']
F, U, R = 'pyforecaster.forecaster', 'pyforecaster.utilities', 'pyforecaster.forecasting_models.randomforests'


def W_layout(h, m):
    return [dict(case='layout', params=dict(seed=i, shape=s, shuffle=True)) for i, s in enumerate(([1, 3, 2], [4, 2, 3], [2, 1, 4], [3, 3, 3], [1, 4, 1]))]


def W_forms(h, m):
    return W_layout(h, m) + [dict(case='forms', params=dict(kind=k, seed=3, n=60, dt=60, nf=2, ny=ny, q=[.1, .5, .9], rows=r, cond=c, n_single=ns, altq=al, cuts=[.3, .7], top=0, on_edge=e))
                             for k, ny, r, c, ns, al, e in (('linear', 3, 3, True, 0, None, True), ('qrf', 2, 1, False, 1, None, False), ('qrf', 3, 3, False, 0, [.3, .6], False), ('qrf', 1, 2, False, 1, None, True))]


@contract('table and array, all sizes', ['pyforecaster/forecaster.py: ScenarioGenerator.quantiles_to_df, ScenarioGenerator.quantiles_to_numpy', 'pyforecaster/forecasting_models/randomforests.py: QRF.quantiles_to_numpy'], W_layout)
def layout(h):
    f, r = h.module(F), h.module(R)
    n, s, q = sint('n', 1), sint('targets', 1), sint('levels', 1)
    lev = symbolic('q', (q,))
    m = f.ScenarioGenerator(q_vect=lev)
    m.target_cols = frame.SymCols(s)
    a = symbolic('q_hat', (n, s, q))
    ix = frame.time_index('t', n, increasing=False)
    df = m.quantiles_to_df(a, ix)
    h.ensure('rows keep their labels', df.index.equal(ix))
    h.ensure('one column per target and level, levels within targets', And(df.columns.levels_[0] is m.target_cols, df.columns.levels_[1] is lev, lift(df.columns.n) == s * q))
    v = df.values
    h.ensure('column i * levels + j of a row is its entry i, j', forall(lambda k, i, j: lift(v.read(k, lift(i) * q + j)) == a.read(k, i, j), (0, n), (0, s), (0, q)))
    for c in (f.ScenarioGenerator, r.QRF):
        h.ensure('%s: the array of the table is the array' % c.__name__, equal_arrays(c.quantiles_to_numpy(df), a))
    alt = symbolic('alt', (q,))
    d2 = m.quantiles_to_df(a, ix, alt)
    h.ensure('levels given by the caller label the columns', And(d2.columns.levels_[1] is alt, equal_arrays(d2.values, v)))


def labelled(h, s, q):
    f, u = h.module(F), h.module(U)
    n = sint('n', 1)
    names = ['t%d' % (s - k) for k in range(s)]
    lev = [(k + 1) / 16. for k in range(q)][::-1]
    m = f.ScenarioGenerator(q_vect=lev)
    m.target_cols = pd.Index(names)
    a = symbolic('q_hat', (n, s, q))
    ix = frame.time_index('t', n, increasing=False)
    df = m.quantiles_to_df(a, ix)
    tb = u.from_tensor_to_pdmultiindex(a, ix, m.target_cols, lev)
    for i, t in enumerate(names):
        for j, l in enumerate(lev):
            w = Arr((n,), lambda r, i=i, j=j: a.read(r, i, j), 'f')
            h.ensure('label (%s, %g) is entry %d, %d' % (t, l, i, j), equal_arrays(df[(t, l)].values, w))
            h.ensure('tensor table: label (%g, %s) is entry %d, %d' % (l, t, i, j), equal_arrays(tb[(l, t)].values, w))
    h.ensure('tensor of the tensor table', equal_arrays(u.convert_multiindex_pandas_to_tensor(tb, zero_first=False), a))
    h.ensure('tensor of the tensor table, levels first', equal_arrays(u.convert_multiindex_pandas_to_tensor(tb, zero_first=True), a.swapaxes(1, 2)))


for _s, _q in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2)):
    contract('labels, %d targets and %d levels' % (_s, _q), ['pyforecaster/forecaster.py: ScenarioGenerator.quantiles_to_df', 'pyforecaster/utilities.py: from_tensor_to_pdmultiindex, convert_multiindex_pandas_to_tensor'], W_layout, unbounded=False)(
        lambda h, s=_s, q=_q: labelled(h, s, q))


@contract('probability masses', ['pyforecaster/forecaster.py: ScenarioGenerator.predict_pmf, ScenarioGenerator.predict_quantiles'], W_forms)
def pmf(h):
    f = h.module(F)
    n, s, q, b = sint('n', 1), sint('targets', 1), sint('levels', 1), sint('bins', 2)
    a = symbolic('q_hat', (n, s, q))
    e = symbolic('edges', (b,))
    h.patch(f.ScenarioGenerator, '_predict_quantiles', lambda self, x, **k: a)
    m = f.ScenarioGenerator()
    x = table('x', n, cols=['f'])
    cells = norm(b - 1)

    def share(i, j, c):
        last = lift(c) == b - 2
        return S(z3.ToReal(sym.reduce_term('count', q, lambda l: 1, lambda l: And(lift(a.read(i, j, l)) >= e.read(c), Or(lift(a.read(i, j, l)) < e.read(lift(c) + 1), And(last, lift(a.read(i, j, l)) == e.read(lift(c) + 1))))).t)) / q
    h.loop(F, ('ScenarioGenerator.predict_pmf', 0), LoopSpec('rows so far', lambda L, k: dict(pmf=Arr((n, s, cells), lambda i, j, c: ite(lift(i) < k, share(i, j, c), 0.), 'f'))))
    h.loop(F, ('ScenarioGenerator.predict_pmf', 1), LoopSpec('targets of the row so far', lambda L, k: dict(pmf=Arr((n, s, cells), lambda i, j, c: ite(Or(lift(i) < L.all['i'], And(lift(i) == L.all['i'], lift(j) < k)), share(i, j, c), 0.), 'f'))))
    out = m.predict_pmf(x, e)
    h.ensure('mass of a cell is the fraction of predicted quantiles in it', equal_arrays(out, Arr((n, s, cells), share, 'f')))


@contract('both forms of the same forecast', ['pyforecaster/forecaster.py: ScenarioGenerator.predict_quantiles'], W_forms)
def forms(h):
    f = h.module(F)
    n, s, q = sint('n', 1), sint('targets', 1), sint('levels', 1)
    lev = symbolic('q', (q,))
    a = symbolic('q_hat', (n, s, q))
    h.patch(f.ScenarioGenerator, '_predict_quantiles', lambda self, x, **k: a)
    m = f.ScenarioGenerator(q_vect=lev)
    m.target_cols = frame.SymCols(s)
    x = table('x', n, cols=['f'])
    out = m.predict_quantiles(x, dataframe=False)
    h.ensure('the array', equal_arrays(out, a))
    df = m.predict_quantiles(x)
    h.ensure('the table has the rows of the request', df.index.equal(x.index))
    h.ensure('the table holds the array', forall(lambda k, i, j: lift(df.values.read(k, lift(i) * q + j)) == a.read(k, i, j), (0, n), (0, s), (0, q)))
    h.patch(f.ScenarioGenerator, '_predict_quantiles', lambda self, x, **k: df)
    h.ensure('the array of a forecaster that returns tables', equal_arrays(m.predict_quantiles(x, dataframe=False), a))


class Forest:
    """a fitted library forest for some targets: one value per row, target and level (or the mean)"""
    def __init__(self, h, targets, ghosts):
        self.targets, (self.q, self.m) = targets, ghosts

    def predict(self, x, quantiles='mean'):
        n, k = x.shape[0], len(self.targets)
        if isinstance(quantiles, str):
            vals = [[lambda i, t=t: self.m(t, i)] for t in self.targets]
        else:
            vals = [[lambda i, t=t, l=l: self.q(t, i, l) for l in quantiles] for t in self.targets]
        q = len(vals[0])
        a = Arr((n, k, q), lambda i, j, l: vals[norm(j)][norm(l)](i), 'f')
        if q == 1:
            a = a[:, :, 0]
        return a if k > 1 else a[:, 0]


def forest_forecast(h, single, multi, q, parallel):
    r = h.module(R)
    n = sint('n', 1)
    lev = [(k + 1) / 16. for k in range(q)]
    names = ['t%d' % (single + multi - k) for k in range(single + multi)]
    g = ghost('forest', 'iir', 'r'), ghost('mean', 'ii', 'r')
    m = r.QRF(q_vect=lev, n_single=single, parallel=parallel)
    h.patch(r, 'tqdm', lambda it, **k: it)

    class Pool:
        def __init__(self, *a, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def map(self, fn, it): return [fn(i) for i in it]
    import types
    h.patch(r, 'concurrent', types.SimpleNamespace(futures=types.SimpleNamespace(ThreadPoolExecutor=Pool, ProcessPoolExecutor=Pool)))
    m.target_cols = pd.Index(names)
    m.models = [Forest(h, [k], g) for k in range(single)]
    m.multi_step_model = Forest(h, list(range(single, single + multi)), g)
    m.n_multistep = multi
    x = table('x', n, cols=['a', 'b'])
    alt = [(2 * k + 1) / 32. for k in range(q)]
    for what, kw, ls in (('own levels', {}, lev), ('levels of the request', dict(quantiles=alt), alt)):
        df = m.predict_quantiles(x, **kw)
        arr_ = m.predict_quantiles(x, dataframe=False, **kw)
        h.ensure('%s: one column per target and level' % what, list(df.columns) == [(t, l) for t in names for l in ls])
        h.ensure('%s: rows keep their labels' % what, df.index.equal(x.index))
        for i, t in enumerate(names):
            for j, l in enumerate(ls):
                w = Arr((n,), lambda k, i=i, l=l: g[0](i, k, l), 'f')
                h.ensure('%s: label (%s, %g) is the forecast of that target at that level' % (what, t, l), equal_arrays(df[(t, l)].values, w))
                h.ensure('%s: array entry %d, %d is the forecast of that target at that level' % (what, i, j), equal_arrays(arr_[:, i, j], w))
    p = m.predict(x)
    h.ensure('point forecast: targets in order', list(p.columns) == names)
    for i, t in enumerate(names):
        h.ensure('point forecast of %s' % t, equal_arrays(p[t].values, Arr((n,), lambda k, i=i: g[1](i, k), 'f')))


for _a, _b, _q, _p in ((0, 1, 3, False), (0, 3, 2, False), (1, 0, 3, True), (2, 0, 2, False), (1, 1, 2, False), (2, 2, 3, True), (0, 2, 1, False), (0, 1, 1, False), (2, 1, 1, True)):
    contract('forest with %d single and %d joint targets, %d levels' % (_a, _b, _q), ['pyforecaster/forecasting_models/randomforests.py: QRF.predict, QRF._predict, QRF.predict_multi_step, QRF.predict_quantiles, QRF.quantiles_to_numpy', 'pyforecaster/forecaster.py: encode_categorical'],
             W_forms, unbounded=False)(lambda h, a=_a, b=_b, q=_q, p=_p: forest_forecast(h, a, b, q, p))
