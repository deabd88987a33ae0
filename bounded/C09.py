from common import *
import copy
import fc
from pyforecaster.forecasting_models import fast_adaptive_models as fa


def series(p):
    g = np.random.default_rng(p['seed'])
    t = np.arange(p['n'])
    x = pd.DataFrame({'target': 3 + np.sin(2 * np.pi * t / p['per']) + .3 * g.normal(size=p['n'])}, index=whole_index(p['n'], 60))
    if p.get('cov'):
        x['c'] = g.normal(size=p['n'])
    return x


def model(p):
    kw = dict(n_sa=p['n_sa'], q_vect=np.array([.1, .5, .9]), optimize_hyperpars=False, verbose=False)
    m, per = p['m'], p['per']
    if p['kind'] == 'fes':
        return fa.Fourier_es(target_name='target', m=m, periodicity=per, alpha=p['alpha'], omega=p['omega'], n_harmonics=p['nh'], **kw)
    if p['kind'] == 'fk':
        return fa.FK(target_name='target', m=m, periodicity=per, alpha=p['alpha'], omega=p['omega'], n_harmonics=p['nh'], **kw)
    if p['kind'] == 'fkm':
        return fa.FK_multi(target_name='target', m=m, periodicity=min(per, m - 1), n_predictors=2, base_predictor=[fa.Fourier_es, fa.FK][p['nh'] % 2], optimize_submodels_hyperpars=False, **kw)
    from pyforecaster.forecasting_models.holtwinters import HoltWinters, HoltWintersMulti
    if p['kind'] == 'hw':
        return HoltWinters(periods=[per, 2 * per], target_name='target', alpha=p['alpha'] / 4, beta=p.get('beta', 0), gamma_1=.1, gamma_2=.05, **kw)
    if p['kind'] == 'hwm':
        return HoltWintersMulti(periods=[per, 2 * per], target_name='target', optimize_submodels_hyperpars=False, **kw)
    from pyforecaster.forecasting_models.benchmarks import Persistent, SeasonalPersistent
    if p['kind'] == 'pers':
        return Persistent('target', n_sa=p['n_sa'], q_vect=np.array([.1, .5]), n_scen_fit=5)
    return SeasonalPersistent('target', seasonality=p['n_sa'] + p['nh'], n_sa=p['n_sa'], q_vect=np.array([.1, .5]), n_scen_fit=5)


def fitted(p):
    np.random.seed(0)
    x = series(p)
    k = p['n_fit']
    m = model(p)
    quiet(m.fit, x.iloc[:k], x.iloc[:k])
    return m, x.iloc[:k], x.iloc[k:]


def run_causal(p):
    m, xf, xp = fitted(p)
    y1 = quiet(m.predict, xp).values
    check(y1.shape == (len(xp), p['n_sa']), 'forecasts have shape %s' % (y1.shape,))
    check(not np.isnan(y1).any(), 'missing forecasts')
    m2, _, _ = fitted(p)
    cut = p['cut'] % len(xp)
    x2 = xp.copy()
    x2.iloc[cut + 1:, 0] = x2.iloc[cut + 1:, 0] * -1.7 + 11.
    y2 = quiet(m2.predict, x2).values
    d = np.argwhere(~np.isclose(y1[:cut + 1], y2[:cut + 1], rtol=1e-9, atol=1e-9))
    check(len(d) == 0, lambda: '%s: changing samples after row %d changes the forecast of row %d step %d' % (p['kind'], cut, d[0][0], d[0][1]))
    # fewer later rows: same forecasts
    m3, _, _ = fitted(p)
    if p['kind'] not in ('seas',):
        y3 = quiet(m3.predict, xp.iloc[:cut + 1]).values
        check(close(y3, y1[:cut + 1]), '%s: forecasts depend on how many later rows are passed' % p['kind'])
    return ['causal', p['kind'], p['n_sa'], cut > p['m']]


def run_state(p):
    m, xf, xp = fitted(p)
    if p['kind'] in ('hw', 'hwm'):
        whole = quiet(m.predict, xp).values
        m, _, _ = fitted(p)
        cuts = sorted({c % (len(xp) - 1) + 1 for c in p['cuts']})
        parts = \
            [quiet(m.predict, xp.iloc[a:b]).values for a, b in zip([0] + cuts, cuts + [len(xp)])]
        check(close(np.vstack(parts), whole), '%s: forecasting in pieces %s differs from forecasting at once' % (p['kind'], cuts))
        return ['continue', p['kind'], len(cuts)]
    st = copy.deepcopy(getattr(m, 'states', None))
    a = quiet(m.predict, xp).values
    quiet(m.predict, xp.iloc[:max(len(xp) // 2, p['n_sa'] + 5)])
    quiet(m.predict_quantiles, xp)
    b = quiet(m.predict, xp).values
    check(close(a, b, rtol=1e-9), '%s: the same request gives another answer the second time' % p['kind'])
    if st is not None:
        for k, v in st.items():
            w = m.states[k]
            check((v is None and w is None) or close(v, w, rtol=1e-12), '%s: state %s changed by a forecast request' % (p['kind'], k))
        if 'w' in st:
            mem = np.r_[np.zeros(p['m']), xf['target'].values][-p['m']:]
            check(close(st['w'], mem), '%s: memory after fitting is not the last %d samples' % (p['kind'], p['m']))
    return ['state', p['kind'], p['n_fit'] < p['m']]


def run_memory(p):
    g = np.random.default_rng(p['seed'])
    w = g.normal(size=p['m'])
    y = g.normal(size=p['ny'])
    for f in (fa.generate_recent_history, fa.StatefulForecaster.generate_recent_history):
        for i in range(p['ny']):
            w0, y0 = w.copy(), y.copy()
            start = max(0, i - p['m'] + 1)
            r = f(y, w, start, i)
            check(np.array_equal(w, w0) and np.array_equal(y, y0), 'memory update modified its arguments')
            exp = np.r_[w, y[:i + 1]][-p['m']:]
            check(np.array_equal(r, exp), lambda: 'after %d new samples the memory of length %d is %s, last samples are %s' % (i + 1, p['m'], r, exp))
    return [p['m'], p['ny'] > p['m']]


def gen_memory(rng, i, tier):
    return dict(seed=i, m=rng.randint(1, 8), ny=rng.randint(1, 20))


KINDS = ['fes', 'fk', 'hw', 'fkm', 'pers', 'fes', 'fk', 'hwm', 'seas']


def gen(rng, i, tier):
    m = rng.choice([4, 6, 12, 24])
    n_sa = rng.choice([1, 2, 3])
    per = rng.choice([k for k in (3, 4, 6, 12) if k >= n_sa and k <= m])
    kind = KINDS[i % len(KINDS)]
    n_fit = rng.choice([n_sa + 2, m - 1 if m > n_sa + 2 else m + 3, m, m + 1, 2 * m + 3, 40])
    if kind in ('hw', 'hwm', 'seas', 'pers'):
        n_fit = max(n_fit, 30)
    return dict(kind=kind, seed=rng.randrange(10**6), n=n_fit + rng.choice([8, 15, 40, 2 * m + 2]), n_fit=n_fit, m=m, per=per, n_sa=n_sa,
                alpha=rng.choice([.1, .5, .8]), omega=rng.choice([.3, .9, .99]), nh=rng.choice([1, 2, 3]), cut=rng.randrange(200), cuts=[rng.randrange(200) for _ in range(rng.choice([1, 2, 3]))],
                beta=rng.choice([0, 0, .05]), cov=kind == 'hw' and rng.random() < .4)


RULE = 'random series, memory lengths, horizons and cut points for every online model; distinct = distinct (check, model, horizon / pieces, long)'
CASES = [Case('causal', gen, run_causal, 54, 900, rule=RULE), Case('state', gen, run_state, 54, 900, rule=RULE), Case('memory', gen_memory, run_memory, 60, 600, rule=RULE)]
