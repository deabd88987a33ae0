from common import *
import fc


def spec(e, hours, q, conditional):
    """residual quantiles: per hour when every hour of the day was observed and calibration is conditional"""
    if conditional and len(set(hours)) == 24:
        d = {h: np.quantile(e[hours == h], q, axis=0).T for h in range(24)}
        return lambda h: d[h]
    u = np.quantile(e, q, axis=0).T
    return lambda h: u


def compare(p, m, xp, point, dist, label):
    q = np.array(p['q'])
    arr = quiet(m.predict_quantiles, xp, dataframe=False)
    exp = np.stack([pt[:, None] + dist(h) for pt, h in zip(point, xp.index.hour)])
    check(arr.shape == exp.shape, '%s: quantiles have shape %s instead of %s' % (label, arr.shape, exp.shape))
    bad = np.argwhere(~np.isclose(arr, exp, rtol=1e-6, atol=1e-7, equal_nan=True))
    check(len(bad) == 0, lambda: '%s: row %s (hour %d) step %d level %s is %r, point forecast + residual quantile is %r (%d of %d entries differ)' % (
        label, xp.index[bad[0][0]], xp.index[bad[0][0]].hour, bad[0][1], q[bad[0][2]], arr[tuple(bad[0])], exp[tuple(bad[0])], len(bad), arr.size))
    check((np.diff(arr, axis=-1) >= -1e-9).all(), '%s: quantile forecasts cross' % label)


def pred_rows(p, x):
    g = np.random.default_rng(p['seed'] + 1)
    k = p['pick']
    if k == 'all':
        return x
    if k == 'one':
        return x.iloc[[int(g.integers(len(x)))]]
    if k == 'some':
        return x.iloc[np.sort(g.choice(len(x), size=min(len(x), 7), replace=False))]
    if k == 'unsorted':
        return x.iloc[g.permutation(len(x))[:9]]
    return x.set_index(x.index + pd.Timedelta('%dmin' % p['shift']))


def run(p):
    x, y = fc.table(p)
    if p['keep_hours'] is not None:
        sel = x.index.hour.isin(p['keep_hours'])
        x, y = x[sel], y[sel]
    p2 = dict(p, kw=dict(conditional_to_hour=p['cond']) if p['kind'] not in () else {})
    if p['val_ratio']:
        nv = int(len(x) * p['val_ratio'])
        xv, yv = x.iloc[len(x) - nv:], y.iloc[len(x) - nv:]
    else:
        xv, yv = x, y
    m = fc.make(p['kind'], p2)
    np.random.seed(0)
    quiet(m.fit, x, y)
    e = yv.values - quiet(m.predict, xv).values
    dist = spec(e, xv.index.hour.values, p['q'], p['cond'])
    xp = pred_rows(p, x)
    compare(p, m, xp, quiet(m.predict, xp).values, dist, p['kind'])
    # re-calibration with another conditioning of the same fitted object
    if p['flip']:
        m.set_params(conditional_to_hour=not p['cond'])
        np.random.seed(0)
        quiet(m.fit, x, y)
        e = yv.values - quiet(m.predict, xv).values
        compare(p, m, xp, quiet(m.predict, xp).values, spec(e, xv.index.hour.values, p['q'], not p['cond']), p['kind'] + ' re-fitted')
    return [p['kind'], p['cond'], len(set(xv.index.hour)), p['pick'], p['ny'], p['tz']]


def gen(rng, i, tier):
    kinds = ['linear', 'ridge', 'lgb', 'hybrid', 'hybrid_multi', 'energy', 'rff', 'arff']
    dt = rng.choice([60, 60, 30, 7 * 60])
    n = rng.choice([30, 60, 110]) if dt != 30 else rng.choice([60, 120])
    keep = None
    if rng.random() < .25:
        keep = sorted(rng.sample(range(24), rng.choice([3, 12, 23])))
        n = max(n, 60)
    return dict(kind=kinds[i % len(kinds)], seed=rng.randrange(10**6), n=n, dt=dt, nf=rng.choice([1, 2, 3]), ny=rng.choice([1, 2, 3]),
                tz=rng.choice([None, 'Europe/Zurich', 'Asia/Kolkata']), q=rng.choice(fc.QS), cond=rng.random() < .7, keep_hours=keep,
                val_ratio=rng.choice([None, None, 0.5]), pick=rng.choice(['all', 'one', 'some', 'unsorted', 'shifted']), shift=rng.choice([0, 7, 90, 3 * 60, 13 * 60]),
                flip=rng.random() < .25)


def run_persist(p):
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
    g = np.random.default_rng(p['seed'])
    idx = whole_index(p['n'], p['dt'], tz=p['tz'])
    x = pd.DataFrame(g.normal(size=(p['n'], 2)).cumsum(0), index=idx, columns=['load', 't'])
    q = np.array(p['q'])
    kw = dict(q_vect=q, n_sa=p['n_sa'], conditional_to_hour=p['cond'], val_ratio=p['val_ratio'], n_scen_fit=5)
    if p['season']:
        m = SeasonalPersistent('load', seasonality=p['season'], **kw)
    else:
        m = Persistent('load', **kw)
    quiet(m.fit, x)
    nv = int(len(x) * p['val_ratio']) if p['val_ratio'] else len(x)
    xv = x.iloc[len(x) - nv:]
    xc = xv.iloc[:-p['n_sa']]
    v = xv['load'].values
    tgt = np.array([v[r + 1:r + 1 + p['n_sa']] for r in range(len(xc))])
    e = tgt - quiet(m.predict, xc).values
    dist = spec(e, xc.index.hour.values, p['q'], p['cond'])
    xp = pred_rows(p, x) if not p['season'] else x.iloc[-max(p['season'], 5):]
    point = quiet(m.predict, xp)
    if not p['season']:
        check(close(point.values, np.repeat(xp[['load']].values, p['n_sa'], axis=1)), 'persistence does not repeat the last observation')
    compare(p, m, xp, point.values, dist, 'persistence')
    return ['persistent', bool(p['season']), p['cond'], p['n_sa'], len(set(xc.index.hour))]


def gen_persist(rng, i, tier):
    n_sa = rng.choice([1, 2, 5])
    return dict(seed=rng.randrange(10**6), n=rng.choice([40, 80, 120]), dt=rng.choice([60, 60, 30]), tz=rng.choice([None, 'Europe/Zurich']), q=rng.choice(fc.QS), n_sa=n_sa,
                cond=rng.random() < .6, val_ratio=rng.choice([None, 0.7]), season=rng.choice([None, None, n_sa, n_sa + 3]),
                pick=rng.choice(['all', 'one', 'some', 'unsorted', 'shifted']), shift=rng.choice([0, 7, 90]))


def run_online(p):
    """models calibrated on their own in-sample residuals: the offset is one table (step, level) for all rows"""
    m, x, xp = online(p)
    q = np.array(p['q'])
    arr = quiet(m.predict_quantiles, xp, dataframe=False)
    m, x, xp = online(p)
    point = quiet(m.predict, xp).values
    check(arr.shape == point.shape + (len(q),), 'shape of quantiles %s' % (arr.shape,))
    off = arr - point[:, :, None]
    check(close(off, np.broadcast_to(off[:1], off.shape), atol=1e-6), 'offset between quantiles and point forecast differs between rows')
    check((np.diff(arr, axis=-1) >= -1e-9).all(), 'quantile forecasts cross')
    check(close(off[0], m.err_distr, atol=1e-6), 'offset is not the stored residual quantile')
    return [p['kind'], p['n_sa'], len(q)]


def online(p):
    g = np.random.default_rng(p['seed'])
    idx = whole_index(p['n'], 60)
    t = np.arange(p['n'])
    x = pd.DataFrame({'target': np.sin(2 * np.pi * t / 12) + 0.2 * g.normal(size=p['n'])}, index=idx)
    kw = dict(n_sa=p['n_sa'], q_vect=np.array(p['q']), optimize_hyperpars=False, verbose=False)
    if p['kind'] == 'hw':
        from pyforecaster.forecasting_models.holtwinters import HoltWinters
        m = HoltWinters(periods=[12, 24], target_name='target', **kw)
    elif p['kind'] == 'fes':
        from pyforecaster.forecasting_models.fast_adaptive_models import Fourier_es
        m = Fourier_es(target_name='target', m=24, periodicity=12, **kw)
    else:
        from pyforecaster.forecasting_models.fast_adaptive_models import FK
        m = FK(target_name='target', m=24, periodicity=12, **kw)
    k = p['n'] * 2 // 3
    quiet(m.fit, x.iloc[:k], x.iloc[:k])
    return m, x.iloc[:k], x.iloc[k:]


def gen_online(rng, i, tier):
    return dict(kind=['hw', 'fes', 'fk'][i % 3], seed=rng.randrange(10**6), n=rng.choice([60, 90]), n_sa=rng.choice([1, 2, 4]), q=rng.choice(fc.QS))


RULE = 'random tables (any hours present), forecasters, calibration settings and prediction rows; distinct = distinct (forecaster, conditional, hours calibrated, rows picked, targets, zone)'
CASES = [Case('residual', gen, run, 56, 1200, rule=RULE), Case('persistence', gen_persist, run_persist, 24, 400, rule=RULE), Case('online', gen_online, run_online, 6, 60, rule=RULE)]
