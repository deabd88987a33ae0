from common import *
from pyforecaster.forecasting_models import holtwinters as hw


def clip(v, c):
    return v if c is None else min(max(c[0], v), c[1])


def reference(y, alpha, beta, g1, g2, a, b, s1, s2, n_sa, cons=None):
    """additive Holt-Winters with two seasons; s1[0], s2[0] are the terms of the next sample's phase"""
    s1, s2 = list(s1), list(s2)
    out = []
    for v in y:
        a_new = alpha * (v - s1[0] - s2[0]) + (1 - alpha) * (a + b)
        n1 = clip(g1 * (v - a_new - s2[0]) + (1 - g1) * s1[0], cons)
        n2 = clip(g2 * (v - a_new - s1[0]) + (1 - g2) * s2[0], cons)
        b = beta * (a_new - a) + (1 - beta) * b
        a = a_new
        s1, s2 = s1[1:] + [n1], s2[1:] + [n2]
        out.append([a + k * b + s1[(k - 1) % len(s1)] + s2[(k - 1) % len(s2)] for k in range(1, n_sa + 1)])
    return np.array(out).reshape(len(y), n_sa), a, b, s1, s2


def run_pass(p):
    g = np.random.default_rng(p['seed'])
    y = g.normal(size=p['n']) * 2 + 1
    p1, p2 = p['periods']
    a, b = g.normal(size=2)
    s1, s2 = g.normal(size=p1), g.normal(size=p2)
    c = p['cons']
    m = hw.HoltWinters(periods=[p1, p2], target_name='t', n_sa=p['n_sa'], optimize_hyperpars=False, verbose=False, alpha=p['al'], beta=p['be'], gamma_1=p['g1'], gamma_2=p['g2'], constraints=c)
    m.set_states(a, b, s1.copy(), s2.copy())
    keep = y.copy(), s1.copy(), s2.copy()
    exp = reference(y, p['al'], p['be'], p['g1'], p['g2'], a, b, s1, s2, p['n_sa'], c)
    got = quiet(m._run, y) if hasattr(m, '_run') else None
    if got is None:
        raise Skip('HoltWinters._run')
    names = ['forecasts', 'level', 'trend', 'first season', 'second season']
    for nme, u, v in zip(names, got, exp):
        check(close(u, v, rtol=1e-7, atol=1e-9), lambda: '%s after the pass are %s, the recursion gives %s' % (nme, np.asarray(u).ravel()[:5], np.asarray(v).ravel()[:5]))
    check(np.array_equal(y, keep[0]) and np.array_equal(m.s1, s1) and np.array_equal(s1, keep[1]), 'the pass modified the series or the stored state')
    if c is not None:
        check(all(c[0] - 1e-12 <= v <= c[1] + 1e-12 for v in list(got[3])[-min(len(y), p1):] + list(got[4])[-min(len(y), p2):]), 'a seasonal term left the declared constraints')
    # public interface: forecasts continue from the fitted state with the same equations
    m.target_cols = ['t%d' % k for k in range(p['n_sa'])]
    x = pd.DataFrame({'t': y}, index=whole_index(len(y), 60))
    m.set_states(a, b, s1.copy(), s2.copy())
    yh = quiet(m.predict, x)
    check(close(yh.values, exp[0], rtol=1e-7, atol=1e-9), lambda: 'forecasts differ from the recursion by up to %s' % np.abs(yh.values - exp[0]).max())
    st = m.get_states()
    for k, v in zip(['a', 'b', 's1', 's2'], exp[1:]):
        check(close(st[k], v, rtol=1e-7, atol=1e-9), 'state %s after forecasting' % k)
    return [p['periods'], p['n_sa'], c is not None, p['be'] > 0]


def gen_pass(rng, i, tier):
    return dict(seed=rng.randrange(10**6), n=rng.choice([1, 2, 5, 12, 30]), periods=[rng.choice([1, 2, 3, 4, 7]), rng.choice([1, 2, 5, 8])], n_sa=rng.choice([1, 2, 3, 6, 11]),
                al=rng.random(), be=rng.choice([0., .01, .2, .7]), g1=rng.random(), g2=rng.random(), cons=rng.choice([None, None, [-.5, .5], [0., 10.]]))


def run_fit(p):
    g = np.random.default_rng(p['seed'])
    n = p['n']
    t = np.arange(n)
    x = pd.DataFrame({'t': 2 + np.sin(2 * np.pi * t / p['periods'][0]) + .2 * g.normal(size=n)}, index=whole_index(n, 60))
    m = hw.HoltWinters(periods=p['periods'], target_name='t', n_sa=p['n_sa'], optimize_hyperpars=False, verbose=False, alpha=p['al'], beta=p['be'], gamma_1=p['g1'], gamma_2=p['g2'], q_vect=np.array([.1, .9]))
    k = n // 2
    quiet(m.fit, x.iloc[:k])
    st = {k_: (np.copy(v) if isinstance(v, np.ndarray) else v) for k_, v in m.get_states().items()}
    exp = reference(x['t'].values[k:], p['al'], p['be'], p['g1'], p['g2'], st['a'], st['b'], st['s1'], st['s2'], p['n_sa'])[0]
    yh = quiet(m.predict, x.iloc[k:])
    check(close(yh.values, exp, rtol=1e-7, atol=1e-9), 'forecasts after fitting do not follow the recursion from the fitted state')
    # several horizons: each step comes from the model of its horizon
    mm = hw.HoltWintersMulti(periods=p['periods'], target_name='t', n_sa=p['n_sa'], optimize_hyperpars=False, optimize_submodels_hyperpars=False, verbose=False, q_vect=np.array([.1, .9]),
                             models_periods=p['mp'], alphas=[p['al'] * (j + 1) / 4 for j in range(len(p['mp']))], gammas_1=[.1] * len(p['mp']), gammas_2=[.05] * len(p['mp']))
    quiet(mm.fit, x.iloc[:k])
    states = [{a: (np.copy(v) if isinstance(v, np.ndarray) else v) for a, v in s.get_states().items()} for s in mm.models]
    exp = np.zeros((n - k, p['n_sa']))
    lo = 0
    for s, st, h in zip(mm.models, states, p['mp']):
        r = reference(x['t'].values[k:], s.alpha, s.beta, s.gamma_1, s.gamma_2, st['a'], st['b'], st['s1'], st['s2'], h)[0]
        exp[:, lo:h] = r[:, lo:h]
        lo = h
    check(close(quiet(mm.predict, x.iloc[k:]).values, exp, rtol=1e-7, atol=1e-9), 'steps of the multi-horizon model do not come from the model of their horizon')
    return ['fit', p['n_sa'], len(p['mp'])]


def gen_fit(rng, i, tier):
    n_sa = rng.choice([1, 2, 4, 6])
    mp = sorted(set(rng.sample(range(1, n_sa + 1), rng.randint(1, n_sa))) | {n_sa})
    return dict(seed=rng.randrange(10**6), n=rng.choice([60, 100]), periods=rng.choice([[4, 8], [6, 12], [5, 7]]), n_sa=n_sa, al=rng.uniform(.05, .5), be=rng.choice([0., .05]), g1=rng.uniform(0, .5), g2=rng.uniform(0, .5), mp=mp)


def run_tuner(p):
    g = np.random.default_rng(p['seed'])
    x = pd.DataFrame({'t': g.normal(size=80) + 3}, index=whole_index(80, 60))
    np.random.seed(p['seed'])
    lims = {'alpha': [p['lo'], p['hi']], 'gamma_1': [0, .3], 'gamma_2': [.2, .25]}
    pars = dict(periods=[4, 8], target_name='t', n_sa=2, verbose=False, optimize_hyperpars=True, targets_names=['t'])
    best = quiet(hw.tune_hyperpars, x, hw.HoltWinters, lims, n_trials=p['trials'], return_model=False, parallel=False, model_init_kwargs=pars)
    for k, (a, b) in lims.items():
        check(a <= best[k] <= b, 'tuned %s = %s outside its declared range [%s, %s]' % (k, best[k], a, b))
    return ['tuner', p['trials']]


def gen_tuner(rng, i, tier):
    lo = rng.uniform(0, .5)
    return dict(seed=rng.randrange(10**6), lo=lo, hi=lo + rng.choice([.01, .3]), trials=rng.choice([1, 3, 5]))


RULE = 'random series, periods, states, smoothing factors, horizons and constraints; distinct = distinct (periods, horizon, constrained, trend)'
CASES = [Case('pass', gen_pass, run_pass, 150, 3000, rule=RULE), Case('fit', gen_fit, run_fit, 12, 150, rule=RULE), Case('tuner', gen_tuner, run_tuner, 5, 60, rule=RULE)]
