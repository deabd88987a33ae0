from common import *
import fc


def run_split(p):
    from pyforecaster.forecaster import LinearForecaster
    n = p['n']
    idx = whole_index(n, 60) if p['index'] == 'time' else pd.Index(np.random.default_rng(n).permutation(n))
    x = pd.DataFrame({'a': np.arange(n), 'b': -np.arange(n)}, index=idx)
    y = pd.DataFrame({'y': np.arange(n) + .25, 'z': np.arange(n) * 3}, index=idx)
    m = LinearForecaster(val_ratio=p['ratio'])
    xt, yt, xv, yv = m.train_val_split(x, y)
    if p['ratio'] is None:
        for t in (xt, xv):
            check(t.equals(x), 'without a validation fraction all rows are used')
        for t in (yt, yv):
            check(t.equals(y), 'without a validation fraction all rows are used')
        return ['none']
    ids = list(xt['a']) + list(xv['a'])
    check(ids == list(range(n)), 'training rows followed by validation rows are %s...' % ids[:8])
    check(abs(len(xv) - n * p['ratio']) < 1 and len(xv) <= n * p['ratio'] + 1e-9, '%d validation rows of %d for fraction %s' % (len(xv), n, p['ratio']))
    check(close(yt['y'].values, xt['a'].values + .25) and close(yv['y'].values, xv['a'].values + .25), 'features and targets of different rows')
    check(close(yt['z'].values, 3 * xt['a'].values) and close(yv['z'].values, 3 * xv['a'].values), 'features and targets of different rows')
    check(xt.index.equals(yt.index) and xv.index.equals(yv.index) and list(xt.index) + list(xv.index) == list(idx), 'labels')
    return ['split', p['index'], int(p['ratio'] * 10)]


def gen_split(rng, i, tier):
    return dict(n=rng.choice([1, 2, 3, 7, 10, 33, 100]), ratio=rng.choice([None, .1, .2, .25, 1 / 3, .5, .8, .9, 1.0]) if i % 3 else rng.random(), index=rng.choice(['time', 'other']))


def run_hankel(p):
    from pyforecaster.forecasting_models.holtwinters import hankel
    v = np.random.default_rng(p['seed']).normal(size=p['n'])
    arg = v.reshape(-1, 1) if p['col'] else v
    keep = arg.copy()
    g = p['gen']
    h = hankel(arg, p['w'], None if g is None else np.array(g))
    check(np.array_equal(arg, keep), 'the series was modified')
    offs = list(range(p['w'])) if g is None else g
    rows = p['n'] - p['w'] + 1
    check(h.shape == (rows, len(offs)), 'shape %s instead of %s' % (h.shape, (rows, len(offs))))
    for i in range(rows):
        check(np.array_equal(h[i], v[[i + o for o in offs]]), 'row %d is not the samples at offsets %s' % (i, offs))
    return [p['w'], g is None, p['col']]


def gen_hankel(rng, i, tier):
    n = rng.randint(1, 40)
    w = rng.randint(1, n)
    g = None if rng.random() < .5 else [rng.randrange(w) for _ in range(rng.randint(1, 5))]
    return dict(seed=i, n=n, w=w, gen=g, col=rng.random() < .4)


def run_use(p):
    """the split and the windows as they are used by the forecasters: what a model is trained and calibrated on"""
    if p['kind'] == 'linear':
        x, y = fc.table(p)
        nv = int(len(x) * p['ratio'])
        m = fc.make('linear', dict(p, val_ratio=p['ratio'], kw=dict(conditional_to_hour=False)))
        quiet(m.fit, x, y)
        ref = fc.make('linear', dict(p, val_ratio=None, kw=dict(conditional_to_hour=False)))
        quiet(ref.fit, x.iloc[:len(x) - nv], y.iloc[:len(x) - nv])
        check(close(quiet(m.predict, x).values, quiet(ref.predict, x).values), 'the model is not the one trained on the first rows')
        e = y.iloc[len(x) - nv:].values - quiet(m.predict, x.iloc[len(x) - nv:]).values
        check(close(m.err_distr, np.quantile(e, p['q'], axis=0).T), 'calibration does not use the last rows')
        return ['linear']
    from pyforecaster.forecasting_models.benchmarks import Persistent
    g = np.random.default_rng(p['seed'])
    x = pd.DataFrame({'load': g.normal(size=p['n']).cumsum()}, index=whole_index(p['n'], 60))
    m = Persistent('load', n_sa=p['ny'], q_vect=np.array(p['q']), val_ratio=p['ratio'], n_scen_fit=5)
    quiet(m.fit, x)
    nv = int(len(x) * p['ratio'])
    v = x['load'].values[len(x) - nv:]
    e = np.array([v[r + 1:r + 1 + p['ny']] - v[r] for r in range(nv - p['ny'])])
    check(close(m.err_distr, np.quantile(e, p['q'], axis=0).T), 'residuals of the persistence model do not pair each row with the following samples')
    return ['persistent', p['ny']]


def gen_use(rng, i, tier):
    return dict(kind=['linear', 'persistent'][i % 2], seed=rng.randrange(10**6), n=rng.choice([60, 90]), dt=60, nf=2, ny=rng.choice([1, 2, 4]), q=rng.choice(fc.QS), ratio=rng.choice([.3, .5, .75]))


RULE = 'random lengths, fractions, window lengths and generators; distinct = distinct (kind, index, tenth of the fraction) or (window, generator given, column)'
CASES = [Case('split', gen_split, run_split, 150, 3000, rule=RULE), Case('hankel', gen_hankel, run_hankel, 150, 3000, rule=RULE), Case('use', gen_use, run_use, 12, 120, rule=RULE)]
