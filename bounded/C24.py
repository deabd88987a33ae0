"""C24: class probabilities of the discrete-distribution forecaster are a distribution over the ordered classes."""
from common import *
from pyforecaster.forecasting_models.benchmarks import DiscreteDistr

RULE = 'random targets over 1-6 classes (negative, fractional, unsorted), sampling times, request subsets (single rows, irregular, repeated, permuted, later than the fit), target orders; distinct = (classes, sampling, request kind, targets)'
SUP = [[0, 1], [1], [0, 1, 2], [-1, 0, 3], [.5, 2.25, 7], [10, 2, 33, 4], [1, 2, 3, 4, 5, 6], [-3, -2, -1]]
REQ = ['all', 'one', 'some', 'shuffled', 'later', 'repeated']


def gen(rng, i, tier):
    return dict(sup=SUP[i % len(SUP)], dt=rng.choice([60, 30, 15, 120, 240]), ny=rng.choice([1, 2, 3]), days=rng.choice([2, 3, 7]), req=REQ[i % len(REQ)] if i < 12 else rng.choice(REQ), seed=rng.randrange(10 ** 6),
                names=rng.choice([['a', 'b', 'c'], ['z', 'm', 'a'], ['load_t+1', 'load_t+2', 'load_t+10']]), off=rng.choice([0, 0, 7]), tz=rng.choice([None, None, 'Etc/GMT-3']))


def run(p):
    g = np.random.default_rng(p['seed'])
    n = p['days'] * 24 * 60 // p['dt']
    idx = whole_index(n, p['dt'], start='2021-03-01 00:00', tz=p['tz']) + pd.Timedelta(minutes=p['off'] if p['dt'] > p['off'] else 0)
    sup = np.array(p['sup'])
    y = pd.DataFrame(g.choice(sup, size=(n, p['ny'])), index=idx, columns=p['names'][:p['ny']])
    x = pd.DataFrame({'f': np.arange(n)}, index=idx)
    kx, ky = x.copy(), y.copy()
    m = DiscreteDistr(q_vect=np.array([.1, .5, .9]))
    quiet(m.fit, x, y)
    pos = dict(all=np.arange(n), one=g.integers(n, size=1), some=np.sort(g.choice(n, size=min(5, n), replace=False)), shuffled=g.permutation(n)[:9], later=np.arange(min(n, 6)), repeated=np.array([2, 2, 0, 1]))[p['req']]
    xr = x.iloc[pos].copy()
    if p['req'] == 'later':
        xr.index = xr.index + pd.Timedelta(days=400)
    pr, yh = quiet(m.predict_probabilities, xr), quiet(m.predict, xr)
    check(x.equals(kx) and y.equals(ky), 'the caller\'s tables were modified')
    for t in (pr, yh):
        check(t.index.equals(xr.index), lambda: 'a request for rows %s returns rows %s' % (list(xr.index[:3]), list(t.index[:3])))
    classes = sorted(set(y.values.ravel()))
    tod = lambda ix: np.asarray(ix.floor(pd.Timedelta(minutes=p['dt'])).strftime('%H:%M'))
    t_fit, t_req = tod(idx), tod(xr.index)
    check(sorted(set(pr.columns.get_level_values(0))) == sorted(y.columns) and sorted(yh.columns) == sorted(y.columns), 'targets %s' % list(yh.columns))
    for c in y.columns:
        q = pr[c]
        check([float(k) for k in q.columns] == [float(k) for k in classes], lambda: 'probabilities of %s are labelled %s, the ordered classes are %s' % (c, list(q.columns), classes))
        v = q.values.astype(float)
        check((v >= 0).all() and np.allclose(v.sum(axis=1), 1, atol=1e-9), lambda: 'probabilities of %s are not a distribution: %s' % (c, v[:3]))
        for r in range(len(xr)):
            rows = y[c].values[t_fit == t_req[r]]
            e = np.array([np.mean(rows == k) for k in classes])
            check(close(v[r], e, atol=1e-9), lambda: 'row %s target %s: probabilities %s, observed frequencies of the classes %s are %s' % (xr.index[r], c, v[r], classes, e))
        check(close(yh[c].values, v @ np.array(classes, dtype=float), atol=1e-8), lambda: 'the forecast of %s is %s, the expectation of the classes is %s' % (c, yh[c].values[:3], (v @ np.array(classes))[:3]))
    return [len(classes), p['dt'], p['req'], p['ny'], p['names'][0]]


CASES = [Case('distribution', gen, run, quick=80, thorough=600, rule=RULE)]
