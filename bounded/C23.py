"""C23: cross-validation scores each fold with a model fitted on its training rows, on its test rows."""
from common import *
from pyforecaster import trainer
from pyforecaster.metrics import make_scorer
from sklearn.base import BaseEstimator

RULE = 'random tables with time / integer / unsorted / repeated / text row labels, folds as masks or positions (unsorted, of different sizes, not covering), full or random-fold, one or several scores, with and without stored results; distinct = (labels, fold form, type, scores, storage, entry point)'
LOG = []


class Rec(BaseEstimator):
    """forecast depends on the parameters and on every training row"""
    def __init__(self, a=1., b=0.):
        self.a, self.b = a, b

    def fit(self, x, y):
        self.ids_ = [int(v) for v in np.asarray(x['id'])]
        self.y_ = np.asarray(y, dtype=float).copy()
        self.at_fit_ = (self.a, self.b)
        w = np.cos(np.asarray(x['id']) + 1.)
        self.c_ = (w[:, None] * self.y_).sum(axis=0)
        return self

    def predict(self, x):
        return pd.DataFrame(self.at_fit_[0] * np.asarray(x['id'])[:, None] + self.c_[None] + self.at_fit_[1], index=x.index, columns=['p%d' % k for k in range(len(self.c_))])


def recording(estimator, x, y):
    LOG.append(dict(fit=list(estimator.ids_), fit_y=estimator.y_.copy(), par=estimator.at_fit_, ids=[int(v) for v in x['id']], y=np.asarray(y, dtype=float).copy()))
    return float(np.mean(np.abs(np.asarray(estimator.predict(x)) - np.asarray(y))))


def by_rmse(estimator, x, y):
    return float(np.sqrt(np.mean((np.asarray(estimator.predict(x)) - np.asarray(y)) ** 2)))


def mae(x, t, agg_index=None, **kwargs):
    return (x - t).abs().mean()


LABELS = ['time', 'int', 'shuffled_int', 'repeated', 'text', 'reversed_time']


def gen(rng, i, tier):
    return dict(n=rng.choice([12, 20, 33]), ny=rng.choice([1, 2, 3]), labels=LABELS[i % len(LABELS)], form=['mask', 'pos', 'pos_shuffled', 'pandas_mask'][(i // 2) % 4], folds=rng.choice([2, 3, 4]), type=rng.choice(['full', 'random_fold']),
                scores=rng.choice(['one', 'two', 'metric', 'key']), store=rng.random() < .5, entry=rng.choice(['cv', 'cv', 'objective', 'optimizer']), seed=rng.randrange(10 ** 6), trials=rng.choice([1, 3]))


def build(p):
    g = np.random.default_rng(p['seed'])
    n = p['n']
    idx = dict(time=lambda: whole_index(n, 30), int=lambda: pd.RangeIndex(n), shuffled_int=lambda: pd.Index(g.permutation(n)), repeated=lambda: pd.Index(g.integers(0, n // 2, size=n)), text=lambda: pd.Index(['r%d' % k for k in g.permutation(n)]),
               reversed_time=lambda: whole_index(n, 30)[::-1])[p['labels']]()
    x = pd.DataFrame({'id': np.arange(n), 'v': g.normal(size=n)}, index=idx)
    y = pd.DataFrame(g.normal(size=(n, p['ny'])) + 3, index=idx, columns=['y%d' % k for k in range(p['ny'])])
    folds = []
    for k in range(p['folds']):
        te = np.zeros(n, dtype=bool)
        te[g.choice(n, size=g.integers(2, n // 2), replace=False)] = True
        tr = ~te & (g.random(n) < .8)
        tr[np.flatnonzero(~te)[0]] = True
        if p['form'] == 'mask':
            folds.append((tr, te))
        elif p['form'] == 'pandas_mask':
            folds.append((np.array(pd.Series(tr, index=idx)), np.array(pd.Series(te, index=idx))))
        else:
            a, b = np.flatnonzero(tr), np.flatnonzero(te)
            folds.append((g.permutation(a), g.permutation(b)) if p['form'] == 'pos_shuffled' else (a, b))
    return x, y, folds


def as_pos(m):
    m = np.asarray(m)
    return np.flatnonzero(m) if m.dtype == bool else m


def scoring(p):
    if p['scores'] == 'one':
        return recording
    if p['scores'] in ('two', 'key'):
        return dict(first=recording, second=by_rmse)
    return make_scorer(mae)


def expected(p, x, y, fold, par):
    tr, te = (as_pos(f) for f in fold)
    m = Rec(*par).fit(x.iloc[tr], y.iloc[tr])
    e = m.predict(x.iloc[te]).values - y.iloc[te].values
    return float(np.mean(np.abs(e))), float(np.sqrt(np.mean(e ** 2))), m.predict(x.iloc[te]), y.iloc[te], list(tr), list(te)


def check_log(p, x, y, rows, par):
    """each logged scoring saw a model fitted on one used fold's training rows, and that fold's test rows"""
    for l, (fold, pr) in zip(LOG, rows):
        tr, te = (list(as_pos(f)) for f in fold)
        check(l['fit'] == tr, lambda: 'the model was fitted on rows %s, the fold trains on %s' % (l['fit'], tr))
        check(l['ids'] == te, lambda: 'the score was computed on rows %s, the fold tests on %s' % (l['ids'], te))
        check(np.array_equal(l['fit_y'], y.values[tr]) and np.array_equal(l['y'], y.values[te]), 'targets of other rows were used')
        check(l['par'] == pr, lambda: 'the model was fitted with parameters %s, the trial proposed %s' % (l['par'], pr))


def run(p):
    x, y, folds = build(p)
    kx, ky = x.copy(), y.copy()
    sc = scoring(p)
    del LOG[:]
    kw = dict(score_key='test_second') if p['scores'] == 'key' else {}
    store = []

    def storage_fun(storage, res):
        storage.append((res['y_te'], res['y_hat'])) if storage is not None else store.append((res['y_te'], res['y_hat']))
    pars = []
    np.random.seed(p['seed'] % 1000)
    if p['entry'] == 'cv':
        r = quiet(trainer.cross_validate, x, y, Rec(2., .5), folds, scoring=sc, cv_type=p['type'], storage_fun=storage_fun if p['store'] else None, **kw)
        values, pars = [r[1]], [(2., .5)]
        if p['store']:
            store = [(r[0]['y_te'], r[0]['y_hat'])]
    elif p['entry'] == 'objective':
        class Trial:
            def set_user_attr(self, k, v):
                self.scores = v
        values, m = [], Rec()
        for t in range(p['trials']):
            pr = (float(t + 2), .25 * t)
            pars.append(pr)
            tr = Trial()
            values.append(quiet(trainer.optuna_objective, tr, x, y, m, folds, scoring=sc, param_space_fun=lambda _: dict(a=pr[0], b=pr[1]), cv_type=p['type'], storage=store, storage_fun=storage_fun if p['store'] else None, **kw))
            if p['type'] == 'full':
                e = [expected(p, x, y, f, pr) for f in folds]
                check(close(tr.scores, [v[1 if p['scores'] == 'key' else 0] for v in e]), 'scores stored with the trial')
    else:
        if p['scores'] not in ('metric',):
            p = dict(p, scores='metric')
            kw = {}

        def space(trial):
            pr = (trial.suggest_float('a', 1, 9), trial.suggest_float('b', -1, 1))
            pars.append(pr)
            return dict(a=pr[0], b=pr[1])
        import optuna
        study, reps = quiet(trainer.hyperpar_optimizer, x, y, Rec(), n_trials=p['trials'], metric=mae, cv=folds if p['seed'] % 2 else (f for f in folds), param_space_fun=space, cv_type=p['type'],
                            sampler=optuna.samplers.RandomSampler(seed=p['seed']), storage_fun=storage_fun if p['store'] else None, **kw)
        values = [t.value for t in study.trials]
        check([(t.params['a'], t.params['b']) for t in study.trials] == pars, 'parameters recorded with the trials')
        if p['store']:
            store = reps
        check(len(values) == p['trials'], 'number of trials')
    check(x.equals(kx) and y.equals(ky), 'the caller\'s tables were modified')
    which = 1 if p['scores'] == 'key' else 0
    exp = [[expected(p, x, y, f, pr) for f in folds] for pr in pars]
    if p['type'] == 'full':
        for v, e in zip(values, exp):
            m = np.mean([k[which] for k in e])
            check(close(v, m), lambda: 'the trial value is %s, the mean of the fold scores is %s' % (v, m))
        check_log(p, x, y, [(f, pr) for pr in pars for f in folds], pars)
        for s, e in zip(store, exp):
            for k in range(len(folds)):
                yt, yh = s[0]['fold_%d' % k], s[1]['fold_%d' % k]
                check(yt.index.equals(e[k][3].index) and yt.equals(e[k][3]), 'stored targets of fold %d are not its test rows' % k)
                check(yh.index.equals(e[k][2].index) and close(yh.values, e[k][2].values), 'stored predictions of fold %d are not those of its model on its test rows' % k)
        check(len(store) == (len(pars) if p['store'] else 0), 'stored results')
    else:
        used = []
        for v, e in zip(values, exp):
            k = [i for i in range(len(folds)) if close(v, e[i][which])]
            check(len(k) > 0, lambda: 'the trial value %s is not the score of any fold: %s' % (v, [q[which] for q in e]))
            used.append(k)
        if p['scores'] in ('one', 'two', 'key'):
            check(len(LOG) == len(pars), 'number of scored folds')
            check_log(p, x, y, [(folds[next((i for i in k if [int(q) for q in as_pos(folds[i][1])] == l['ids']), k[0])], pr) for l, k, pr in zip(LOG, used, pars)], pars)
        for s, e, k in zip(store, exp, used):
            ok = [i for i in k if s[0].equals(e[i][3]) and s[1].index.equals(e[i][2].index) and close(s[1].values, e[i][2].values)]
            check(len(ok) > 0, 'stored targets / predictions are not those of the scored fold')
    return [p['labels'], p['form'], p['type'], p['scores'], p['store'], p['entry']]


CASES = [Case('folds', gen, run, quick=600, thorough=6000, rule=RULE)]
