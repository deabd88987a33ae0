from common import *
from pyforecaster.forecaster import ScenarioGenerator


class Rec(ScenarioGenerator):
    """a forecaster that records which rows it is calibrated on"""
    def predict(self, x, **kw):
        self.seen_x = x
        return pd.DataFrame(np.zeros((len(x), 2)), index=x.index)

    def _predict_quantiles(self, x, **kw):
        pass


def index(p):
    g = np.random.default_rng(p['seed'])
    n = p['n']
    if p['index'] == 'range':
        return pd.RangeIndex(n)
    if p['index'] == 'int':
        return pd.Index(g.permutation(n * 3)[:n])
    idx = whole_index(n, p['dt'], tz=p['tz'])
    if p['index'] == 'skewed':       # few hours hold most of the rows
        w = np.where(idx.hour < p['heavy'], 12., 1.)
        idx = pd.DatetimeIndex(idx[np.sort(g.choice(n, size=n, p=w / w.sum()))])
    elif p['index'] == 'unsorted':
        idx = idx[g.permutation(n)]
    elif p['index'] == 'hours':
        idx = pd.DatetimeIndex([t for t in whole_index(24 * n, 60, tz=p['tz']) if t.hour in p['hours']][:n])
    return idx


def calibrate(p, x, y, seed_kw):
    m = Rec(q_vect=[0.5], max_scengen_rows=p['m'], conditional_to_hour=False, **seed_kw)
    if p['rs_attr'] is not None and not seed_kw:
        m.random_state = p['rs_attr']
    rec = {}
    def spy(errs, xx, n_scen=None):
        rec.update(errs=errs, x=xx)
    m.scengen.fit = spy
    quiet(m.fit, x, y)
    return m, rec['errs'], rec['x']


def run(p):
    idx = index(p)
    n = len(idx)
    x = pd.DataFrame({'id': np.arange(n), 'b': np.arange(n) * 2.}, index=idx)
    y = pd.DataFrame({'id': np.arange(n) + .5, 'c': -np.arange(n)}, index=idx)
    x0, y0 = x.copy(), y.copy()
    kw = {} if p['rs_attr'] is not None else dict(scengen_random_state=p['rs'])
    m, errs, xs = calibrate(p, x, y, kw)
    check(x.equals(x0) and y.equals(y0), 'calibration changed the tables')
    ids = xs['id'].values
    cap = p['m']
    if cap is None or n <= cap:
        check(list(ids) == list(range(n)) and xs.index.equals(idx), 'rows were dropped or moved although there is no excess')
    else:
        check(len(ids) == cap, '%d rows used for calibration, the cap is %d' % (len(ids), cap))
        check(len(set(ids)) == len(ids), 'rows used more than once')
        check(list(xs.index) == [idx[k] for k in ids], 'row labels do not belong to the rows')
        t = xs.index
        check(all(a <= b for a, b in zip(t[:-1], t[1:])), 'calibration rows are not in time order')
    check(len(errs) == len(ids) and close(errs.iloc[:, 0].values, ids + .5) and close(errs.iloc[:, 1].values, -ids), 'targets of other rows')
    check(close(xs['b'].values, 2. * ids), 'features of other rows')
    check(list(m.seen_x['id']) == list(ids), 'predictions were made for other rows')
    # the same seed gives the same rows, whatever the global random state
    np.random.seed(p['seed'])
    _, e2, x2 = calibrate(p, x, y, kw)
    check(list(x2['id']) == list(ids), 'the same seed selects other rows')
    return [p['index'], cap is None, None if cap is None else min(3, cap * 4 // n), p['rs_attr'] is None]


def gen(rng, i, tier):
    kind = ['time', 'skewed', 'unsorted', 'range', 'hours', 'int'][i % 6]
    n = rng.choice([1, 2, 5, 24, 30, 60, 200])
    m = rng.choice([None, 1, 2, 3, n, n + 5, max(n - 1, 1), max(n // 2, 1), rng.randint(1, 60), max(n - 2, 1)])
    return dict(index=kind, n=n, m=m, seed=rng.randrange(10**6), dt=rng.choice([10, 60, 90]), tz=rng.choice([None, 'Europe/Zurich']), heavy=rng.choice([1, 2, 6]),
                hours=sorted(rng.sample(range(24), rng.choice([1, 2, 5]))), rs=rng.choice([None, 0, 7, 123]), rs_attr=rng.choice([None, None, 5]))


RULE = 'random indexes (sorted, with repeated labels, unsorted, few hours, integers), sizes and caps around each other, seeds; distinct = distinct (index kind, cap relative to size, seed source)'
CASES = [Case('cap', gen, run, 240, 6000, rule=RULE)]
