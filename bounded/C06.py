from common import *
import fc


def spread(y):
    """targets on very different levels, so that a mix-up of targets cannot go unnoticed"""
    return y + 1000. * (np.arange(y.shape[1]) + 1)


def model_and_rows(p):
    if p['kind'] in ('hw', 'fes', 'fk', 'fkm', 'hwm', 'es', 'persistent', 'seasonal'):
        g = np.random.default_rng(p['seed'])
        idx = whole_index(p['n'], 60)
        t = np.arange(p['n'])
        x = pd.DataFrame({'target': 5 + np.sin(2 * np.pi * t / 12) + 0.2 * g.normal(size=p['n'])}, index=idx)
        kw = dict(n_sa=p['ny'], q_vect=np.array(p['q']))
        on = dict(optimize_hyperpars=False, verbose=False)
        k = p['n'] * 2 // 3
        if p['kind'] in ('persistent', 'seasonal'):
            from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
            kw.update(n_scen_fit=5, conditional_to_hour=p['cond'])
            m = Persistent('target', **kw) if p['kind'] == 'persistent' else SeasonalPersistent('target', seasonality=p['ny'] + 2, **kw)
        elif p['kind'] == 'hw':
            from pyforecaster.forecasting_models.holtwinters import HoltWinters
            m = HoltWinters(periods=[12, 24], target_name='target', **kw, **on)
        elif p['kind'] == 'hwm':
            from pyforecaster.forecasting_models.holtwinters import HoltWintersMulti
            m = HoltWintersMulti(periods=[12, 24], target_name='target', optimize_submodels_hyperpars=False, **kw, **on)
        elif p['kind'] == 'es':
            from pyforecaster.forecasting_models.statsmodels_wrapper import ExponentialSmoothing
            m = ExponentialSmoothing('target', trend=False, **kw)
        else:
            from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi
            if p['kind'] == 'fkm':
                m = FK_multi(target_name='target', m=24, periodicity=12, n_predictors=2, base_predictor=Fourier_es, optimize_submodels_hyperpars=False, **kw, **on)
            else:
                m = dict(fes=Fourier_es, fk=FK)[p['kind']](target_name='target', m=24, periodicity=12, **kw, **on)
        quiet(m.fit, x.iloc[:k], x.iloc[:k])
        rows = x.iloc[k:k + p['rows']]
        if p['kind'] == 'seasonal':
            rows = x.iloc[k:k + max(p['rows'], 5)]
        if p['kind'] == 'es':
            rows = x.iloc[k:k + max(p['rows'], 5)]
        return m, rows, None
    x, y = fc.table(p)
    y = spread(y)
    p2 = dict(p, kw=dict(conditional_to_hour=p['cond']))
    m = fc.make(p['kind'], p2)
    np.random.seed(0)
    quiet(m.fit, x, y)
    return m, x.iloc[:p['rows']], y


def run(p):
    import copy
    q = list(p['q'])
    m, x, y = model_and_rows(p)
    online = p['kind'] == 'hw'
    if online:
        st = copy.deepcopy(m.get_states())
    kwq = {'quantiles': p['altq']} if p['kind'] == 'qrf' and p.get('altq') else {}
    if kwq:
        q = list(p['altq'])
    arr = quiet(m.predict_quantiles, x, dataframe=False, **kwq)
    if p['kind'] in ('hw', 'hwm'):
        m, x, y = model_and_rows(p)
    tab = quiet(m.predict_quantiles, x, dataframe=True, **kwq)
    if p['kind'] in ('hw', 'hwm'):
        m, x, y = model_and_rows(p)
    check(isinstance(arr, np.ndarray) and isinstance(tab, pd.DataFrame), 'forms are %s and %s' % (type(arr), type(tab)))
    names = list(y.columns) if y is not None else list(m.target_cols)
    check(arr.shape == (len(x), len(names), len(q)), 'array has shape %s for %d rows, %d targets, %d levels' % (arr.shape, len(x), len(names), len(q)))
    check(tab.index.equals(x.index), 'rows of the table')
    check(tab.shape[1] == len(names) * len(q), 'table has %d columns' % tab.shape[1])
    check(not np.isnan(arr).any(), 'missing quantiles')
    for k, nme in enumerate(names):
        for l, lev in enumerate(q):
            check((nme, lev) in tab.columns, 'no column labelled (%s, %s) in %s' % (nme, lev, list(tab.columns)[:4]))
            v = tab[(nme, lev)].values
            check(close(v, arr[:, k, l], atol=1e-6), lambda: 'column (%s, %s) is not entry [:, %d, %d] of the array' % (nme, lev, k, l))
            if y is not None:
                lo, hi = 1000. * (k + 1) - 500, 1000. * (k + 1) + 500
                check(((v > lo) & (v < hi)).all(), lambda: 'column (%s, %s) does not hold values of its target' % (nme, lev))
    check((np.diff(arr, axis=-1) >= -1e-9).all(), 'levels of the array are not in the declared order')
    # probability masses
    lo, hi = float(arr.min()), float(arr.max())
    space = np.array([lo - 1] + sorted(lo + (hi - lo) * c for c in p['cuts']) + [hi + p['top']])
    if p['on_edge']:
        space = np.unique(np.r_[lo - 1, np.sort(arr.ravel())[:: max(1, arr.size // 4)], hi])
    if len(space) < 2 or not (np.diff(space) > 0).all():
        return [p['kind']]
    pmf = quiet(m.predict_pmf, x, space, **kwq)
    check(pmf.shape == (len(x), len(names), len(space) - 1), 'probability masses have shape %s' % (pmf.shape,))
    for i in range(len(x)):
        for k in range(len(names)):
            v = arr[i, k]
            exp = [np.mean((v >= a) & ((v < b) | ((v == b) & (b == space[-1])))) for a, b in zip(space[:-1], space[1:])]
            check(close(pmf[i, k], exp), lambda: 'masses of row %d target %d are %s, fractions of quantiles per cell are %s' % (i, k, pmf[i, k], exp))
    return [p['kind'], len(names), len(q), len(x) > 1, len(names) == len(q)]


KINDS = ['linear', 'qrf', 'lgb', 'qrf', 'rff', 'persistent', 'qrf', 'hw', 'fes', 'qrf', 'fk', 'seasonal', 'arff', 'hybrid', 'qrf', 'fkm', 'hybrid_multi', 'hwm', 'es', 'energy']


def gen(rng, i, tier):
    ny = rng.choice([1, 2, 3, 4])
    q = rng.choice(fc.QS + [[0.2, 0.4, 0.6, 0.8]])
    kind = KINDS[i % len(KINDS)]
    if kind == 'es' and i > 40:
        kind = 'qrf'
    return dict(kind=kind, seed=rng.randrange(10**6), n=60, dt=60, nf=2, ny=ny, q=q, rows=rng.choice([1, 2, 3, 5]), cond=rng.random() < .5,
                n_single=rng.choice([0, ny, ny, rng.randint(0, ny)]), altq=rng.choice([None, None, [0.3, 0.6], [0.1, 0.2, 0.3, 0.9]]),
                cuts=sorted(rng.sample([.1, .3, .5, .7, .9], rng.choice([1, 2, 3]))), top=rng.choice([0, 1]), on_edge=rng.random() < .4)


def run_layout(p):
    """the two converters alone, on arbitrary arrays"""
    from pyforecaster.forecaster import ScenarioGenerator
    from pyforecaster.utilities import from_tensor_to_pdmultiindex, convert_multiindex_pandas_to_tensor
    from pyforecaster.forecasting_models.randomforests import QRF
    n, s, k = p['shape']
    a = np.random.default_rng(p['seed']).normal(size=(n, s, k))
    q = np.round(np.linspace(0.1, 0.9, k), 3) if k > 1 else np.array([0.5])
    sg = ScenarioGenerator(q_vect=q)
    names = fc.names('t', s, p['seed'])
    if p['shuffle']:
        q = np.random.default_rng(p['seed']).permutation(q)
        sg = ScenarioGenerator(q_vect=q)
    sg.target_cols = names
    idx = whole_index(n, 60)
    df = sg.quantiles_to_df(a, idx)
    for j in range(s):
        for l in range(k):
            check(close(df[(names[j], q[l])].values, a[:, j, l]), 'label (%s, %s) is not entry [:, %d, %d]' % (names[j], q[l], j, l))
    for cls in (ScenarioGenerator, QRF):
        check(close(cls.quantiles_to_numpy(df), a), '%s.quantiles_to_numpy is not the inverse of quantiles_to_df' % cls.__name__)
    # quantile-major tables
    tb = from_tensor_to_pdmultiindex(a, idx, sg.target_cols, q)
    for j in range(s):
        for l in range(k):
            check(close(tb[(q[l], names[j])].values, a[:, j, l]), 'tensor table: label (%s, %s)' % (q[l], names[j]))
    back = convert_multiindex_pandas_to_tensor(tb, zero_first=True)
    check(close(back, np.swapaxes(a, 1, 2)), 'zero_first tensor is not rows x levels x targets')
    check(close(convert_multiindex_pandas_to_tensor(tb, zero_first=False), a), 'tensor of the table is not the original one')
    return p['shape']


def gen_layout(rng, i, tier):
    return dict(seed=i, shape=[rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 6)], shuffle=rng.random() < .3)


def run_scen(p):
    """scenarios drawn from the array and from the documented (level, step) table are the same"""
    from pyforecaster.scenarios_generator import ScenGen
    from pyforecaster.utilities import from_tensor_to_pdmultiindex
    g = np.random.default_rng(p['seed'])
    n, s, k = p['shape']
    q = np.linspace(0.05, 0.95, k)
    idx = whole_index(n, 60)
    a = np.sort(g.normal(size=(n, s, k)), axis=-1) + 1000 * np.arange(s)[None, :, None]
    ix = whole_index(24 * 8, 60)
    e = pd.DataFrame(g.normal(size=(len(ix), s)), index=ix)
    sg = ScenGen(q_vect=q).fit(e, e)
    out = []
    for form in ('array', 'table'):
        np.random.seed(1)
        kw = dict(quantiles=a, x=pd.DataFrame(np.zeros(n), index=idx)) if form == 'array' else dict(quantiles=from_tensor_to_pdmultiindex(a, idx, list(range(s)), q))
        out.append(quiet(sg.predict_scenarios, n_scen=7, random_state=3, **kw))
    check(out[0].shape == (n, s, 7), 'scenarios have shape %s' % (out[0].shape,))
    check(close(out[0], out[1]), 'scenarios from the table differ from scenarios from the array')
    check((np.abs(out[0].mean(-1) - 1000 * np.arange(s)) < 400).all(), 'scenarios of a step are not on the level of its quantiles')
    return p['shape']


def gen_scen(rng, i, tier):
    return dict(seed=i, shape=[rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 5)])


RULE = 'every quantile-producing forecaster on random tables with well separated targets, and the converters on arbitrary arrays; distinct = distinct (forecaster, targets, levels, one row, square)'
CASES = [Case('forms', gen, run, 80, 1000, rule=RULE), Case('layout', gen_layout, run_layout, 60, 500, rule=RULE), Case('scenarios', gen_scen, run_scen, 12, 100, rule=RULE)]
