"""C23: which rows each fold's model is fitted and scored on; values of trials; parameters of trials."""
from core import *
from core import _fn
import types
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['sklearn.model_selection.cross_validate fits a clone of the model per fold on the training rows and scores it on the test rows, in the order of the folds; KFold(k).split gives k pairs of positions',
               'np.random.choice(k, 1) returns one position below k (every outcome is examined); optuna calls the objective once per trial and records what it returns',
               'the model and the metric are arbitrary functions of what they are given', 'the number of folds (3), trials (3) and columns is enumerated; masks, positions, row labels and values are arbitrary',
               'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.trainer'
FF = 'pyforecaster/trainer.py: '
M = 'pyforecaster.metrics'
K = 3
LAB = ['time', 'int', 'shuffled_int', 'repeated', 'text', 'reversed_time']


def W(entry):
    def w(h, m):
        out = []
        for i, lab in enumerate(LAB):
            for j, form in enumerate(('mask', 'pos', 'pos_shuffled', 'pandas_mask')):
                for t in ('full', 'random_fold'):
                    out.append(dict(case='folds', params=dict(n=20, ny=1 + (i + j) % 3, labels=lab, form=form, folds=3, type=t, scores=('metric' if entry == 'optimizer' else ['one', 'two', 'metric', 'key'][(i + j) % 4]), store=bool((i + j) % 2), entry=entry, seed=i * 7 + j, trials=3)))
        return out
    return w


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


class Model:
    """records what it was fitted on"""
    def __init__(self, h, a=0, b=0):
        self.h, self.par, self.fitted = h, dict(a=a, b=b), None

    def get_params(self, deep=True): return dict(self.par)

    def set_params(self, **k):
        for q in k:
            if q not in self.par:
                raise ValueError(q)
        self.par.update(k)
        return self

    def clone(self):
        m = Model(self.h)
        m.par = dict(self.par)
        return m

    def fit(self, x, y):
        self.fitted = (x.copy(), y.copy(), dict(self.par))
        self.number = len(self.h.fits)
        self.h.fits.append(self.fitted)
        return self

    def predict(self, x):
        if self.fitted is None:
            raise ValueError('not fitted')
        self.h.asked.append((self.number, x.copy()))
        r = self.h.pred
        k = self.number
        sn = x.values.snapshot()
        return frame.Frame([A.Arr((x.index.n,), (lambda j: lambda i: r(lift(k), lift(j), sn(i, 0), sn(i, 1)))(j), 'f') for j in range(2)], x.index, pd.Index(['p0', 'p1']))


class Scorer:
    """records on what it is evaluated; an arbitrary score"""
    def __init__(self, h, name):
        self.h, self.name, self.__name__ = h, name, name

    def __call__(self, est, x, y):
        est.predict(x)
        v = sreal('score_' + self.name)
        self.h.scores.append((self.name, est.number, x.copy(), y.copy(), v))
        return v


def sklearn_cv(h):
    def cross_validate(estimator, X, y=None, scoring=None, cv=None, return_estimator=False, **k):
        if k:
            raise Unsupported('options of cross_validate')
        sc = scoring if isinstance(scoring, dict) else {'score': scoring}
        out = {'fit_time': [], 'score_time': []}
        if return_estimator:
            out['estimator'] = []
        out.update({'test_' + s: [] for s in sc})
        for tr, te in cv:
            m = estimator.clone()
            m.fit(X.iloc[tr], y.iloc[tr])
            if return_estimator:
                out['estimator'].append(m)
            for s, g in sc.items():
                out['test_' + s].append(g(m, X.iloc[te], y.iloc[te]))
        return {q: (as_arr([lift(u) for u in v]) if q.startswith('test_') else v) for q, v in out.items()}
    return cross_validate


def data(h, form, labels='int'):
    n = sint('rows', 1)
    ix = frame.time_index('t', n, False) if labels == 'time' else frame.Index(n, (lambda a: lambda i: a.read(i))(symbolic('label', (n,), 'i')), 'int')
    x = frame.Frame([symbolic('id', (n,)), symbolic('v', (n,))], ix, pd.Index(['id', 'v']))
    y = frame.Frame([symbolic('y0', (n,)), symbolic('y1', (n,))], ix, pd.Index(['y0', 'y1']))
    folds = []
    for k in range(K):
        if form == 'mask':
            folds.append((symbolic('train%d' % k, (n,), 'b'), symbolic('test%d' % k, (n,), 'b')))
        else:
            pair = []
            for s in ('train', 'test'):
                m = sint('%s%d_rows' % (s, k), 1)
                p = symbolic('%s%d' % (s, k), (m,), 'i')
                sym.AX[p.decl.get_id()] = lambda t, n=n, m=m: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < numterm(m)), z3.And(t >= 0, t < numterm(n)))]
                ctx().keep.append(p.decl)
                pair.append(p)
            folds.append(tuple(pair))
    h.fits, h.scores, h.asked, h.pred = [], [], [], _fn('PREDICTION', 'iirr', 'r')
    return n, x, y, folds


def rows(h, name, part, whole, sel):
    want = whole.iloc[sel]
    h.ensure(name + ': values', And(lift(part.index.n) == want.index.n, *[equal_arrays(a, b) for a, b in zip(part.cl, want.cl)]) if isinstance(part, frame.Frame) and part.cl is not None and len(part.cl) == len(want.cl) else lift(False))
    h.ensure(name + ': labels', forall(lambda i: lift(part.index.key(i)) == want.index.key(i), (0, want.index.n)))


def predicted(h, number, x, sel):
    w = x.iloc[sel]
    sn = w.values.snapshot()
    return [A.Arr((w.index.n,), (lambda j: lambda i: h.pred(lift(number), lift(j), sn(i, 0), sn(i, 1)))(j), 'f') for j in range(2)]


SC = {'one scorer': (lambda h: Scorer(h, 's'), {}, 's'), 'two scorers': (lambda h: {'first': Scorer(h, 'first'), 'second': Scorer(h, 'second')}, {}, 'first'),
      'two scorers, the second asked for': (lambda h: {'first': Scorer(h, 'first'), 'second': Scorer(h, 'second')}, dict(score_key='test_second'), 'second')}


def trainer(h):
    h.loader.extra['sklearn.model_selection'] = types.SimpleNamespace(cross_validate=sklearn_cv(h), KFold=None)
    h.loader.extra['optuna'] = types.SimpleNamespace(samplers=types.SimpleNamespace(TPESampler=lambda *a, **k: 'sampler'), create_study=lambda direction=None, sampler=None, **k: Study(direction))
    return h.module(F)


class Trial:
    def __init__(self): self.attrs = {}
    def set_user_attr(self, k, v): self.attrs[k] = v


def full_checks(h, x, y, folds, score, name, base=0, sbase=0, par=None, tag=''):
    fits = h.fits[base:]
    h.ensure(tag + 'one fit per fold', lift(len(fits) == K))
    sc = h.scores[sbase:]
    for k in range(K):
        rows(h, tag + 'fold %d is fitted on its training rows' % k, fits[k][0], x, folds[k][0])
        rows(h, tag + 'fold %d is fitted on its training targets' % k, fits[k][1], y, folds[k][0])
        if par is not None:
            h.ensure(tag + 'fold %d is fitted with the parameters of the trial' % k, And(*[lift(fits[k][2][q]) == v for q, v in par.items()]))
    mine = [s for s in sc if s[0] == name]
    h.ensure(tag + 'one score per fold', lift([s[1] for s in mine] == [base + k for k in range(K)]))
    for k, s in enumerate(mine):
        rows(h, tag + 'fold %d is scored on its test rows' % k, s[2], x, folds[k][1])
        rows(h, tag + 'fold %d is scored on its test targets' % k, s[3], y, folds[k][1])
    t = mine[0][4]
    for s in mine[1:]:
        t = t + s[4]
    h.ensure(tag + 'the value is the mean of the fold scores', lift(score) * K == t)


for _form in ('mask', 'position'):
    for _lab in ('time', 'int'):
        for _sc in SC:
            @contract('full cross-validation: folds as %ss, %s labels, %s' % (_form, _lab, _sc), [FF + 'cross_validate', FF + 'get_score_key'], W('cv'))
            def _full(h, form=_form, lab=_lab, which=_sc):
                f = trainer(h)
                n, x, y, folds = data(h, form, lab)
                mk, kw, name = SC[which]
                tr = Trial()
                res, score = f.cross_validate(x, y, Model(h), folds, scoring=mk(h), trial=tr, storage_fun=lambda *a: None, **kw)
                full_checks(h, x, y, folds, score, name)
                mine = [s for s in h.scores if s[0] == name]
                h.ensure('scores kept with the trial', And(*[as_arr(tr.attrs['cv_test_scores']).read(k) == mine[k][4] for k in range(K)]))
                for k in range(K):
                    rows(h, 'stored targets of fold %d' % k, res['y_te']['fold_%d' % k], y, folds[k][1])
                    yh = res['y_hat']['fold_%d' % k]
                    h.ensure('stored predictions of fold %d are those of its model on its test rows' % k, And(*[equal_arrays(a, b) for a, b in zip(yh.cl, predicted(h, k, x, folds[k][1]))]))
                r2, s2 = f.cross_validate(x, y, Model(h), folds, scoring=mk(h), **kw)
                full_checks(h, x, y, folds, s2, name, K, len(h.scores) - K * (2 if 'two' in which else 1), tag='nothing stored: ')

            for _k in range(K):
                @contract('one random fold (the %s): folds as %ss, %s labels, %s' % (['first', 'second', 'third'][_k], _form, _lab, _sc), [FF + 'cross_validate', FF + 'get_score_key'], W('cv'))
                def _one(h, form=_form, lab=_lab, which=_sc, k=_k):
                    f = trainer(h)
                    n, x, y, folds = data(h, form, lab)
                    mk, kw, name = SC[which]
                    random_fold(h, f, k)
                    res, score = f.cross_validate(x, y, Model(h), folds, scoring=mk(h), cv_type='random_fold', storage_fun=lambda *a: None, **kw)
                    one_checks(h, x, y, folds, k, score, name)
                    rows(h, 'stored targets', res['y_te'], y, folds[k][1])
                    h.ensure('stored predictions are those of the model on the test rows', And(*[equal_arrays(a, b) for a, b in zip(res['y_hat'].cl, predicted(h, 0, x, folds[k][1]))]))


def one_checks(h, x, y, folds, k, score, name, base=0, sbase=0, par=None, tag=''):
    h.ensure(tag + 'one fit', lift(len(h.fits) == base + 1))
    rows(h, tag + 'fitted on the training rows of the fold', h.fits[base][0], x, folds[k][0])
    rows(h, tag + 'fitted on the training targets of the fold', h.fits[base][1], y, folds[k][0])
    if par is not None:
        h.ensure(tag + 'fitted with the parameters of the trial', And(*[lift(h.fits[base][2][q]) == v for q, v in par.items()]))
    mine = [s for s in h.scores[sbase:] if s[0] == name]
    h.ensure(tag + 'scored once', lift([s[1] for s in mine] == [base]))
    rows(h, tag + 'scored on the test rows of the fold', mine[0][2], x, folds[k][1])
    rows(h, tag + 'scored on the test targets of the fold', mine[0][3], y, folds[k][1])
    h.ensure(tag + 'the value is the score of the fold', lift(score) == mine[0][4])


def random_fold(h, f, k):
    ks = list(k) if isinstance(k, (list, tuple)) else None

    def pick():
        return ks.pop(0) if ks is not None else k

    def choice(a, size=None, replace=True, p=None):
        if p is not None or not (isinstance(a, int) and a == K):
            raise Unsupported('another choice')
        q = pick()
        return q if size is None else np.array([q] * size)

    def randint(lo, hi=None, size=None):
        lo, hi = (0, lo) if hi is None else (lo, hi)
        if (lo, hi) != (0, K) or size is not None:
            raise Unsupported('another choice')
        return pick()
    f.np = NPWith(f.np, random=types.SimpleNamespace(choice=choice, randint=randint))


PARS = [dict(a=1.5, b=-.25), dict(a=2., b=.5), dict(a=-3., b=.125)]


@contract('objective: each trial is evaluated with its own parameters', [FF + 'optuna_objective', FF + 'cross_validate'], W('objective'))
def _obj(h):
    f = trainer(h)
    n, x, y, folds = data(h, 'mask', 'int')
    m, sc = Model(h), Scorer(h, 's')
    random_fold(h, f, [1, 0, 2])
    for cvt in ('full', 'random_fold'):
        for t, par in enumerate(PARS):
            b, s, stored = len(h.fits), len(h.scores), []
            v = f.optuna_objective(Trial(), x, y, m, folds, scoring=sc, param_space_fun=lambda tr, par=par: dict(par), cv_type=cvt, storage=stored, storage_fun=lambda st, r: st.append(r))
            tag = '%s, trial %d: ' % (cvt, t)
            if cvt == 'full':
                full_checks(h, x, y, folds, v, 's', b, s, par, tag)
            else:
                one_checks(h, x, y, folds, [1, 0, 2][t], v, 's', b, s, par, tag)
            h.ensure(tag + 'results stored once', lift(len(stored) == 1))


class Study:
    def __init__(self, direction): self.direction, self.values = direction, []

    def optimize(self, g, n_trials=None, callbacks=None, **k):
        for i in range(n_trials):
            t = Trial()
            t.number = i
            self.values.append(g(t))


for _form in ('mask', 'position'):
    @contract('optimizer: folds as %ss (list or generator), every trial on its own folds and parameters' % _form, [FF + 'hyperpar_optimizer', FF + 'optuna_objective', FF + 'cross_validate'], W('optimizer'))
    def _opt(h, form=_form):
        f = trainer(h)
        n, x, y, folds = data(h, form, 'int')
        made = []
        f.make_scorer = lambda metric: (made.append(metric), Scorer(h, 's'))[1]
        metric = lambda a, b, **k: 0
        random_fold(h, f, [1, 0, 2] * 2)
        for cvt in ('full', 'random_fold'):
            for gen in (False, True):
                if cvt == 'random_fold' and gen and form == 'mask':
                    random_fold(h, f, [1, 0, 2])
                b0, s0 = len(h.fits), len(h.scores)
                study, stored = f.hyperpar_optimizer(x, y, Model(h), n_trials=3, metric=metric, cv=(q for q in folds) if gen else list(folds), param_space_fun=lambda tr: dict(PARS[tr.number]), cv_type=cvt,
                                                     storage_fun=lambda st, r: st.append(r))
                tag = '%s, %s: ' % (cvt, 'generator' if gen else 'list')
                h.ensure(tag + 'three trials minimised, three stored replies', lift(bool(study.direction == 'minimize' and len(study.values) == 3 and len(stored) == 3)))
                h.ensure(tag + 'the metric asked for', lift(made[-1] is metric))
                fa, sa = h.fits, h.scores
                step = K if cvt == 'full' else 1
                for t, par in enumerate(PARS):
                    h.fits, h.scores = fa[:b0 + (t + 1) * step], sa[:s0 + (t + 1) * step]
                    if cvt == 'full':
                        full_checks(h, x, y, folds, study.values[t], 's', b0 + t * K, s0 + t * K, par, tag + 'trial %d: ' % t)
                    else:
                        one_checks(h, x, y, folds, [1, 0, 2][t], study.values[t], 's', b0 + t, s0 + t, par, tag + 'trial %d: ' % t)
                h.fits, h.scores = fa, sa


@contract('scorer: the metric of the predictions and targets of the same rows', ['pyforecaster/metrics.py: make_scorer'], W('optimizer'))
def _scorer(h):
    f = h.module(M)
    for lab in ('time', 'int'):
        n, x, y, folds = data(h, 'mask', lab)
        m = Model(h)
        m.fit(x, y)
        seen = []

        def metric(a, b, agg_index=None, **k):
            seen.append((a, b, agg_index, k))
            return frame.Series(as_arr([sreal('step%d' % i) for i in range(2)]), None)
        keep = y.values.copy()
        v = f.make_scorer(metric)(m, x, y)
        a, b, agg, k = seen[0]
        h.ensure('%s labels: predictions of the rows asked for' % lab, And(*[equal_arrays(p, q) for p, q in zip(a.cl, predicted(h, m.number, x, slice(None)))]))
        h.ensure('%s labels: columns of the targets' % lab, lift(bool(list(a.columns) == list(y.columns))))
        h.ensure('%s labels: rows of the predictions' % lab, lift(bool(a.index.same(x.index))))
        h.ensure('%s labels: targets' % lab, equal_arrays(b.values, keep))
        h.ensure('%s labels: steps put together' % lab, lift(bool(len(agg) == 2 and all(float(agg[i]) == float(agg[0]) for i in range(2)))))
