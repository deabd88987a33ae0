"""C22: a second fit equals a first fit of a new object, for sequences of set_params and fits on different data."""
from common import *
import fc

RULE = 'every forecaster, sequences of 1-3 (settings, data) fits, data with other lengths/columns/targets, compared with a new object given the last settings and data; distinct = (forecaster, settings changed, data changes)'

SET = {
    'linear': dict(kind=['ridge', 'linear'], conditional_to_hour=[False, True], val_ratio=[.5, None], q_vect=None, n_scen_fit=[7, 9], max_scengen_rows=[72, 80], additional_node=[True, False]),
    'lgb': dict(n_estimators=[2, 7], num_leaves=[3, 6], learning_rate=[.5, .02], max_depth=[1, 2], min_child_samples=[8, 3], colsample_bytree=[.5, .7], q_vect=None, val_ratio=[.5, .6], conditional_to_hour=[False, True], max_scengen_rows=[72, 90]),
    'hybrid': dict(n_estimators=[2, 7], num_leaves=[3, 6], learning_rate=[.5, .02], max_depth=[1, 2], min_child_samples=[8, 3], q_vect=None, n_single=[0, 1], red_frac_multistep=[.6, 1]),
    'energy': dict(n_estimators=[2, 7], num_leaves=[3, 6], learning_rate=[.5, .02], max_depth=[1, 2], q_vect=None, val_ratio=[.5, .6]),
    'rff': dict(dim_kernel=[3, 9], std_kernel=[.5, .01], q_vect=None, val_ratio=[.5, .6], base_model=['ridge', 'ols']),
    'arff': dict(dim_kernel=[3, 9], std_kernel=[.5, .01], n_models=[1, 3], q_vect=None, base_model=['ridge', 'ols'], additional_node=[True, False]),
    'qrf': dict(n_estimators=[2, 7], max_depth=[1, 2], min_samples_leaf=[3, 9], max_features=[.5, .8], random_state=[3, 4], bootstrap=[False, True], n_single=[0, 1], q_vect=None, criterion=['absolute_error', 'squared_error'], max_samples=[.5, .8], min_samples_split=[9, 5], max_leaf_nodes=[3, 5]),
}
SET['ridge'] = SET['linear']
SET['hybrid_multi'] = SET['hybrid']
KINDS = ['linear', 'lgb', 'qrf', 'rff', 'hybrid', 'energy', 'arff', 'hybrid_multi', 'ridge']


def real(k, v):
    if k == 'base_model':
        from sklearn.linear_model import Ridge, LinearRegression
        return dict(ridge=Ridge, ols=LinearRegression)[v]
    if k == 'q_vect':
        return np.array(v)
    return v


def gen(rng, i, tier):
    kind = KINDS[i % len(KINDS)]
    ny = rng.choice([1, 2, 3])
    seq = []
    for s in range(rng.choice([1, 1, 2])):
        ch = {}
        for k in rng.sample(sorted(SET[kind]), rng.choice([0, 1, 1, 2])):
            v = SET[kind][k]
            ch[k] = rng.choice(fc.QS) if v is None else rng.choice(v)
        seq.append(dict(set=ch, n=rng.choice([150, 170, 200]), nf=rng.choice([2, 3, 4]), ny=rng.choice([ny, ny, 2]), seed=rng.randrange(10 ** 6), cols=rng.choice([None, 'z'])))
    for d in seq:
        if d['set'].get('n_single', 0) > d['ny']:
            d['set']['n_single'] = 0
    return dict(kind=kind, first=dict(n=rng.choice([150, 180]), nf=3, ny=ny, seed=rng.randrange(10 ** 6)), seq=seq, q=rng.choice(fc.QS[1:]), val_ratio=rng.choice([None, .5]), rs=rng.randrange(1000),
                use=rng.random() < .5)


def data(d):
    return fc.table(dict(seed=d['seed'], n=d['n'], dt=60, nf=d['nf'], ny=d['ny'], ycols=['z%d' % k for k in range(d['ny'])] if d.get('cols') else None))


def outputs(m, x):
    xs = x.iloc[::7]
    r = dict(predict=quiet(m.predict, xs), quantiles=quiet(m.predict_quantiles, xs))
    np.random.seed(5)
    try:
        r['scenarios'] = quiet(m.predict_scenarios, xs.iloc[:3], n_scen=4, random_state=3)
    except ValueError as e:
        if 'infs or NaNs' not in str(e):
            raise
        # residuals that do not vary (a model that reproduces its training data) have no correlation to draw from
        r['scenarios'] = [np.zeros(0)]
    return r


def run(p):
    base = dict(kind=p['kind'], q=p['q'], val_ratio=p['val_ratio'], seed=p['rs'], n_single=p['first']['ny'])
    last = p['seq'][-1]
    ny_last = last['ny']
    # settings that only fit one number of targets follow the data of the last fit
    settings = {}
    m = fc.make(p['kind'], dict(base, ny=p['first']['ny']))
    x, y = data(p['first'])
    np.random.seed(1)
    quiet(m.fit, x, y)
    if p['use']:
        outputs(m, x)
    for d in p['seq']:
        ch = {k: real(k, v) for k, v in d['set'].items()}
        if 'n_single' in m.__dict__ and 'n_single' not in ch and (m.n_single > d['ny'] or p['kind'] == 'energy'):
            ch['n_single'] = d['ny']
        settings.update(ch)
        m.set_params(**ch)
        x, y = data(d)
        np.random.seed(2)
        quiet(m.fit, x, y)
    fresh = fc.make(p['kind'], dict(base, ny=p['first']['ny']))
    cls, kw = type(fresh), dict(fresh.get_params())
    kw['n_scen_fit'] = 5
    kw.update(settings)
    if p['kind'] in ('hybrid', 'hybrid_multi', 'energy') and kw.get('nodes_at_step', 0) is None:
        kw.pop('nodes_at_step')
    fresh = cls(**kw)
    np.random.seed(2)
    quiet(fresh.fit, x, y)
    a, b = outputs(m, x), outputs(fresh, x)
    what = '%s after %s' % (p['kind'], [sorted(d['set']) for d in p['seq']])
    for k in a:
        u, v = a[k], b[k]
        if k == 'scenarios':
            check(all(close(s, t, rtol=1e-7, atol=1e-9) for s, t in zip(np.asarray(u), np.asarray(v))) and np.asarray(u).shape == np.asarray(v).shape, 'scenarios of a re-fitted %s differ from those of a new one' % what)
            continue
        check(list(map(str, u.columns)) == list(map(str, v.columns)), '%s of a re-fitted %s have columns %s, a new one has %s' % (k, what, list(u.columns)[:4], list(v.columns)[:4]))
        check(u.index.equals(v.index) and close(u.values, v.values, rtol=1e-7, atol=1e-9), lambda: '%s of a re-fitted %s differ from those of a new one: %s / %s' % (k, what, u.values.ravel()[:3], v.values.ravel()[:3]))
    return [p['kind'], sorted(k for d in p['seq'] for k in d['set']), [(d['nf'], d['ny']) for d in p['seq']]]


SERIES = ['hw', 'hwmulti', 'fes', 'fk', 'persistent', 'seasonal', 'discrete', 'fkm']


def series_gen(rng, i, tier):
    return dict(kind=SERIES[i % len(SERIES)], n=[rng.choice([80, 100, 120]) for _ in range(3)], seed=rng.randrange(10 ** 6), n_sa=rng.choice([1, 3]), refits=rng.choice([1, 2]), use=rng.random() < .5, val=rng.choice([.5, .8]),
                set=rng.random() < .6)


def series_make(p, **kw):
    k = p['kind']
    q = np.array([.1, .5, .9])
    if k == 'hw':
        from pyforecaster.forecasting_models.holtwinters import HoltWinters
        return HoltWinters(periods=[4, 12], target_name='t', n_sa=p['n_sa'], optimize_hyperpars=False, verbose=False, q_vect=q, val_ratio=p['val'], **kw)
    if k == 'hwmulti':
        from pyforecaster.forecasting_models.holtwinters import HoltWintersMulti
        return HoltWintersMulti(periods=[4, 12], target_name='t', n_sa=p['n_sa'], optimize_hyperpars=False, optimize_submodels_hyperpars=False, verbose=False, q_vect=q, val_ratio=p['val'], models_periods=np.array([1, p['n_sa']]) if p['n_sa'] > 1 else np.array([1]), **kw)
    if k in ('fes', 'fk'):
        from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK
        return (Fourier_es if k == 'fes' else FK)(target_name='t', n_sa=p['n_sa'], m=12, n_harmonics=2, optimize_hyperpars=False, verbose=False, q_vect=q, val_ratio=p['val'], **kw)
    if k == 'fkm':
        from pyforecaster.forecasting_models.fast_adaptive_models import FK_multi
        return FK_multi(target_name='t', n_sa=p['n_sa'], m=12, n_predictors=2, optimize_hyperpars=False, optimize_submodels_hyperpars=False, verbose=False, q_vect=q, val_ratio=p['val'], **kw)
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent, DiscreteDistr
    if k == 'persistent':
        return Persistent('t', n_sa=p['n_sa'], q_vect=q, val_ratio=p['val'], **kw)
    if k == 'seasonal':
        return SeasonalPersistent('t', seasonality=12, n_sa=p['n_sa'], q_vect=q, val_ratio=p['val'], **kw)
    return DiscreteDistr(q_vect=q, val_ratio=p['val'], **kw)


def series_data(p, i):
    g = np.random.default_rng(p['seed'] + i)
    n = p['n'][i]
    idx = whole_index(n, 60, start='2021-0%d-01 00:00' % (i + 1))
    v = np.sin(np.arange(n) * 2 * np.pi / 12 * (i + 1)) * (i + 1) + 3 * i + g.normal(size=n) * .2
    if p['kind'] == 'discrete':
        v = np.round(v)
    x = pd.DataFrame({'t': v, 'o': g.normal(size=n)}, index=idx)
    y = pd.DataFrame({'t_%d' % j: np.roll(v, -j) for j in range(p['n_sa'])}, index=idx)
    return x, y


TUNED_SET = [{}, dict(n_sa=2), dict(target_name='o'), dict(optimization_budget=3), dict(q_vect=np.array([.2, .8])), dict(m=10)]


def tuned_gen(rng, i, tier):
    kind = ['hw', 'fes', 'fkm', 'fk', 'hwm', 'fkm_plain'][i % 6]
    return dict(kind=kind, change=(i // 6 + i) % len(TUNED_SET), n=[rng.choice([70, 90]) for _ in range(2)], seed=rng.randrange(10 ** 6), rs=rng.randrange(100), first=rng.choice([1, 2]))


def tuned_run(p):
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es, FK, FK_multi
    k = p['kind']
    kw = dict(target_name='t', n_sa=1, optimization_budget=2, verbose=False, q_vect=np.array([.1, .5, .9]))
    if k in ('hw', 'hwm'):
        kw['periods'] = [4, 12]
        if k == 'hwm':
            kw.update(models_periods=np.array([1]), optimize_submodels_hyperpars=False, optimize_hyperpars=True)
    else:
        kw.update(m=12)
        if k[:3] == 'fkm':
            kw.update(n_predictors=2, optimize_hyperpars=k == 'fkm', optimize_submodels_hyperpars=False)
    cls = dict(hw=HoltWinters, hwm=HoltWintersMulti, fes=Fourier_es, fk=FK, fkm=FK_multi, fkm_plain=FK_multi)[k]
    ch = {n: v for n, v in TUNED_SET[p['change']].items() if not (n == 'm' and 'periods' in kw) and not (k == 'hwm' and n == 'n_sa')}
    g = np.random.default_rng(p['seed'])

    def series(j):
        n = p['n'][j]
        return pd.DataFrame({'t': np.sin(np.arange(n) / (2. + 3 * j)) * (1 + j) + g.normal(size=n) * .1, 'o': np.cos(np.arange(n) / 5.) + j}, index=whole_index(n, 60))

    def fit(m, x):
        np.random.seed(p['rs'])
        quiet(m.fit, x)
        return m
    a, b = cls(**kw), cls(**kw)
    given = a.get_params()
    for _ in range(p['first']):
        fit(a, series(0))
    a.set_params(**ch)
    x = series(1)
    fit(a, x)
    b = fit(cls(**dict(given, **ch)), x)
    xt = series(0).iloc[:30]
    for f in ('predict', 'predict_quantiles'):
        u, v = quiet(getattr(a, f), xt), quiet(getattr(b, f), xt)
        check(u.shape == v.shape and list(map(str, u.columns)) == list(map(str, v.columns)) and close(u.values, v.values, rtol=1e-7, atol=1e-9), lambda: '%s of a re-fitted %s (%s changed) differ from those of a new one: %s / %s' % (f, k, sorted(ch), u.values.ravel()[:4], v.values.ravel()[:4]))
    return [k, sorted(ch), p['first']]


SERIES_SET = dict(fkm=dict(n_sa=2, target_name='o'), hw=dict(alpha=.7, gamma_1=.4), fes=dict(alpha=.3, omega=.9), fk=dict(alpha=.3, omega=.9), persistent=dict(n_sa=2), seasonal=dict(seasonality=6), hwmulti={}, discrete={})


def series_run(p):
    m = series_make(p)
    for i in range(p['refits'] + 1):
        x, y = series_data(p, i)
        last = i == p['refits']
        ch = SERIES_SET[p['kind']] if p['set'] and last else {}
        if ch:
            m.set_params(**ch)
        np.random.seed(3)
        quiet(m.fit, x, y)
        if p['use'] and not last:
            quiet(m.predict, x.iloc[-30:])
    f = series_make(p) if not ch else None
    if ch:
        f = series_make(dict(p, n_sa=ch.get('n_sa', p['n_sa']))) if 'n_sa' in ch else series_make(p)
        for k, v in ch.items():
            setattr(f, k, v) if k != 'n_sa' else None
        if p['kind'] in ('hw', 'fes', 'fk'):
            f = series_make(p, **ch)
        if p['kind'] == 'fkm':
            # the periodicity left unset was that of the first number of steps
            f.__class__.__init__(f, target_name='o', n_sa=2, m=12, n_predictors=2, optimize_hyperpars=False, optimize_submodels_hyperpars=False, verbose=False, q_vect=np.array([.1, .5, .9]), val_ratio=p['val'], periodicity=p['n_sa'])
    np.random.seed(3)
    quiet(f.fit, x, y)
    xt = series_data(p, (p['refits'] + 1) % 3)[0].iloc[:40]
    a, b = quiet(m.predict, xt), quiet(f.predict, xt)
    check(close(np.asarray(a), np.asarray(b), rtol=1e-7, atol=1e-9), lambda: 'forecasts of a re-fitted %s differ from those of a new one: %s / %s' % (p['kind'], np.asarray(a).ravel()[:4], np.asarray(b).ravel()[:4]))
    if p['kind'] not in ('discrete', 'hwmulti'):
        a, b = quiet(m.predict_quantiles, xt), quiet(f.predict_quantiles, xt)
        check(close(np.asarray(a), np.asarray(b), rtol=1e-7, atol=1e-9), 'quantiles of a re-fitted %s differ from those of a new one' % p['kind'])
    return [p['kind'], p['refits'], p['use'], p['set']]


def brutal_gen(rng, i, tier):
    return dict(seed=rng.randrange(10 ** 6), n=[rng.choice([60, 90]) for _ in range(2)], nf=[rng.choice([1, 2, 3]) for _ in range(2)], ny=[rng.choice([1, 2]) for _ in range(2)], n_iter=rng.choice([2, 4]),
                n_bins=rng.choice([3, 5]), first=rng.choice([1, 2]))


def brutal_run(p):
    from pyforecaster.forecasting_models.random_fourier_features import BrutalRegressor
    new = lambda: BrutalRegressor(n_iter=p['n_iter'], n_bins=p['n_bins'], learning_rate=.5, bootstrap_fraction=.8)
    g = np.random.default_rng(p['seed'])
    m = new()
    for k in [0] * p['first'] + [1]:
        x = pd.DataFrame(g.normal(size=(p['n'][k], p['nf'][k])) * (1 + 3 * k))
        y = pd.DataFrame({'t%d' % j: x[0] * (j + 1) + 5 * k for j in range(p['ny'][k])})
        np.random.seed(k)
        quiet(m.fit, x, y)
    f = new()
    np.random.seed(1)
    quiet(f.fit, x, y)
    a, b = quiet(m.predict, x), quiet(f.predict, x)
    check(a.shape == b.shape and list(a.columns) == list(b.columns) and close(a.values, b.values, rtol=1e-9, atol=1e-12), lambda: 'forecasts of a re-fitted boosted step regressor differ from those of a new one: %s / %s' % (a.values.ravel()[:3], b.values.ravel()[:3]))
    return [p['nf'], p['ny'], p['n_iter'], p['n_bins'], p['first']]


CASES = [Case('refit', gen, run, quick=90, thorough=900, rule=RULE),
         Case('series', series_gen, series_run, quick=32, thorough=160, rule=RULE),
         Case('tuned', tuned_gen, tuned_run, quick=12, thorough=72, rule='model, setting changed, lengths, number of earlier fits; distinct = configuration'),
         Case('brutal', brutal_gen, brutal_run, quick=12, thorough=120, rule='learners, bins, data of both fits; distinct = configuration')]
