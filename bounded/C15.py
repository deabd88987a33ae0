"""C15: hourly copula on the real class: matrices per hour, sampled rows, shapes, uniformity."""
from common import *
import pyforecaster.copula as CP


def table(p):
    g = np.random.default_rng(p['seed'])
    n, d = p['n'], p['d']
    idx = pd.date_range('2021-05-01', periods=n, freq=pd.Timedelta(minutes=p['dt']), tz=p['tz'])
    a = {h: np.linalg.cholesky(corr(g, d)) for h in range(24)}
    y = np.stack([a[h] @ g.normal(size=d) for h in idx.hour]) * np.linspace(.3, p['spread'], d) + p['off']
    y = pd.DataFrame(y, index=idx, columns=['y%d' % j for j in range(d)])
    y = y[y.index.hour.isin(p['hours'])]
    if p['perm']:
        y = y.iloc[g.permutation(len(y))]
    return y, g


def corr(g, d):
    a = g.normal(size=(d, d + 1))
    c = a @ a.T
    s = np.sqrt(np.diag(c))
    return c / np.outer(s, s)


def fit(p, y):
    c = CP.HourlyGaussianCopula(cov_est_method=p['method'])
    quiet(c.fit, y, y)
    return c


def refusal_ok(f):
    def g(p):
        try:
            return f(p)
        except FloatingPointError:
            if p['method'].startswith('glasso'):
                return None          # the estimator itself refuses this table
            raise
    return g


@refusal_ok
def run_fit(p):
    y, g = table(p)
    keep = y.copy()
    c = fit(p, y)
    check(y.equals(keep), 'fitting changed the table of the caller')
    hours = sorted(set(int(h) for h in y.index.hour))
    check(sorted(int(h) for h in c.pars) == hours, 'matrices for hours %s, data has %s' % (sorted(c.pars), hours))
    for h in hours:
        m = np.asarray(c.pars[h])
        check(m.shape == (p['d'], p['d']), 'matrix of hour %d has shape %s' % (h, m.shape))
        check(np.allclose(m, m.T), 'matrix of hour %d is not symmetric' % h)
        check(np.allclose(np.diag(m), 1, atol=2e-2 if p['method'].startswith('glasso') else 1e-5), '%s: diagonal of hour %d is %s' % (p['method'], h, np.diag(m)))
        check(np.linalg.eigvalsh(m).min() > -1e-9, 'matrix of hour %d is not positive semidefinite' % h)
        own = y[y.index.hour == h]
        if p['method'] == 'vanilla':
            check(np.allclose(m, np.corrcoef(own.values.T).reshape(p['d'], p['d']), atol=1e-5), 'matrix of hour %d is not the correlation of its own rows' % h)
    # other hours' rows do not matter
    h = hours[p['seed'] % len(hours)]
    y2 = y.copy()
    o = y2.index.hour != h
    y2.loc[o] = y2.loc[o].values[::-1] * -3 + 1
    if p['method'] != 'glasso_cv':       # its penalty (not its data) is tuned on the most populated hour
        check(np.allclose(fit(p, y2).pars[h], c.pars[h], atol=1e-7), 'matrix of hour %d depends on the rows of other hours' % h)
    y3 = y.copy()
    y3.loc[~o] = g.normal(size=y3.loc[~o].shape)
    if p['d'] > 1:
        check(not np.allclose(fit(p, y3).pars[h], c.pars[h], atol=1e-9), 'matrix of hour %d does not depend on its own rows' % h)
    return ['fit', p['method'], p['d'], len(hours), p['perm']]


def gen_fit(rng, i, tier):
    p = dict(seed=rng.randrange(10**6), n=rng.choice([240, 480]), d=rng.choice([1, 2, 3, 5]), dt=rng.choice([60, 30]), tz=rng.choice([None, 'Europe/Zurich']), spread=rng.choice([.3, 1., 20.]), off=rng.choice([0, 10.]),
                hours=rng.choice([list(range(24)), [3], [0, 5, 23], list(range(6, 20))]), perm=rng.random() < .4, method=rng.choice(['vanilla', 'vanilla', 'shrunk', 'glasso', 'glasso_cv']) if rng.random() < .9 else 'shrunk')
    if p['method'].startswith('glasso'):
        p.update(d=rng.choice([2, 3]), spread=rng.choice([.3, 1.]))       # sklearn's GraphicalLasso needs two columns of comparable scale
    return p


def run_sample(p):
    """each row is drawn with the matrix of its own hour: matrices that force a recognisable dependence"""
    g = np.random.default_rng(p['seed'])
    d, S = p['d'], p['S']
    c = CP.HourlyGaussianCopula()
    c.dim = d
    hours = p['hours']
    kind = {h: int(g.integers(0, 2)) for h in hours}
    c.pars = {h: (np.eye(d) + 1e-9 * np.eye(d) if kind[h] == 0 else np.full((d, d), 1 - 1e-8) + 1e-8 * np.eye(d)) for h in hours}
    rows = [int(hours[i]) for i in g.integers(0, len(hours), p['rows'])]
    days = g.permutation(len(rows)) if p['perm'] else np.arange(len(rows))
    idx = pd.DatetimeIndex([pd.Timestamp('2021-06-01') + pd.Timedelta(days=int(k), hours=h, minutes=int(g.integers(0, 60))) for k, h in zip(days, rows)])
    x = pd.DataFrame({'a': 0.}, index=idx)
    np.random.seed(p['seed'])
    out = quiet(c.sample, x, S, random_state=p['rs'])
    check(out.shape == (len(rows), d, S), 'samples have shape %s for %d rows, %d steps, %d scenarios' % (out.shape, len(rows), d, S))
    check(np.isfinite(out).all() and (out >= 0).all() and (out <= 1).all(), 'samples outside [0, 1]')
    for r, h in enumerate(rows):
        check((out[r] > 0).all() and (out[r] < 1).all() and not (out[r] == out[r].flat[0]).all() if S * d > 1 and kind[h] == 0 else True, 'row %d was not filled' % r)
        if d > 1:
            from scipy.stats import norm
            z = norm.ppf(np.clip(out[r], 1e-12, 1 - 1e-12))
            spread = np.abs(z - z[[0]]).max()
            if kind[h] == 0 and S * d < 6:
                continue
            same = spread < 2e-3
            check(same == (kind[h] == 1), 'row %d (hour %d, %s steps) was drawn with the dependence of another hour' % (r, h, 'equal' if kind[h] else 'independent'))
    if len(rows) > 1 and len(set(rows)) < len(rows):
        i, j = [(i, j) for i in range(len(rows)) for j in range(i) if rows[i] == rows[j]][0]
        check(not np.array_equal(out[i], out[j]), 'two rows of the same hour got the same samples')
    # same state, rows in another order: shape and range hold
    return ['sample', d, min(S, 2), len(set(rows)), min(len(rows), 3), p['rs'] is None]


def gen_sample(rng, i, tier):
    return dict(seed=rng.randrange(10**6), d=rng.choice([1, 2, 3, 6]), S=rng.choice([1, 2, 7, 30]), rows=rng.choice([1, 1, 2, 5, 12]), hours=rng.choice([[0], [5, 6], list(range(24)), [23, 0, 12]]), perm=rng.random() < .5, rs=rng.choice([None, 3]))


@refusal_ok
def run_uniform(p):
    y, g = table(dict(p, hours=[4, 9], n=960))
    c = fit(p, y)
    x = y.iloc[:40]
    out = quiet(c.sample, x, 500, random_state=p['seed'])
    for h in (4, 9):
        f = x.index.hour == h
        if f.sum() == 0:
            continue
        for j in range(p['d']):
            u = np.sort(out[f, j, :].ravel())
            ks = np.abs(u - (np.arange(len(u)) + .5) / len(u)).max()
            # 5000+ draws: the 1e-9 bound of the Kolmogorov statistic
            check(ks < 3.4 / np.sqrt(len(u)), '%s: step %d of hour %d is not uniform (distance %.3f over %d samples)' % (p['method'], j, h, ks, len(u)))
    return ['uniform', p['method'], p['d']]


RULE = 'random tables (hours present, order, scale), estimators, rows, scenarios; distinct = distinct (case, estimator, steps, hours, order)'
CASES = [Case('fit', gen_fit, run_fit, 40, 500, rule=RULE), Case('sample', gen_sample, run_sample, 80, 1200, rule=RULE), Case('uniform', gen_fit, run_uniform, 10, 80, rule=RULE)]
