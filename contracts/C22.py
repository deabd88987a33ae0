"""C22: a model fitted again (with settings changed or not) equals a new one given the same settings and data: relational contracts over two executions of the real fit and predict.

Library calls are answered by an oracle.  While the model is fitted again and used, every observation made on the library (a prediction of a
fitted regressor with its constructor arguments and training data, a random draw, a subsample ...) is recorded with its arguments and answered
with an arbitrary value.  While the new model is fitted and used, the k-th observation must have the same arguments (an obligation), and gets the
same answer.  What the two models return must then be equal (obligations)."""
from core import *
import types
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['a library regressor predicts as a function of its constructor arguments, the data of its last fit and the request (it forgets earlier fits)',
               'random draws are a function of the state of the generator when the fit starts and of the draws before them; both fits start from the same state',
               'the numbers of targets and features of both fits are enumerated (one to three), the numbers of rows are arbitrary', 'real arithmetic instead of floating point',
               'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py', 'Dataset and train of lightgbm, RidgeCV, LinearRegression, LGBMRegressor, RandomForestQuantileRegressor, StandardScaler replaced by the oracle']
F, G, Q, R, B, HW, FA = ('pyforecaster.forecaster', 'pyforecaster.forecasting_models.gradientboosters', 'pyforecaster.forecasting_models.randomforests', 'pyforecaster.forecasting_models.random_fourier_features',
                         'pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.holtwinters', 'pyforecaster.forecasting_models.fast_adaptive_models')
P = 'pyforecaster/'


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


# ---------------------------------------------------------------- equality of whatever is handed around
def deep(a, b):
    """goal: a and b are the same value"""
    if a is b:
        return lift(True)
    if isinstance(a, Lib) and isinstance(b, Lib):
        return And(lift(a.name == b.name), deep(a.made, b.made), deep(a.fits, b.fits))
    if isinstance(a, frame.Series) and isinstance(b, frame.Series):
        return And(rows(a.index, b.index), equal_arrays(a.a, b.a))
    if frame.is_frame(a) and frame.is_frame(b) and not isinstance(a, frame.Series) and not isinstance(b, frame.Series):
        if not cols(a.columns, b.columns):
            return lift(False)
        return And(rows(a.index, b.index), *[deep(c if hasattr(c, 'a') else frame.Series(A.as_arr(c), a.index), d if hasattr(d, 'a') else frame.Series(A.as_arr(d), b.index)) for c, d in zip(a.cl, b.cl)])
    if isinstance(a, frame.Index) and isinstance(b, frame.Index):
        return rows(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return And(*[deep(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else lift(False)
    if isinstance(a, dict) and isinstance(b, dict):
        return And(*[deep(a[k], b[k]) for k in a]) if set(a) == set(b) else lift(False)
    if isinstance(a, (A.Arr, np.ndarray)) or isinstance(b, (A.Arr, np.ndarray)):
        if any(isinstance(v, (str, type(None), dict, bool)) for v in (a, b)):
            return lift(False)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype != object and b.dtype != object:
            return lift(bool(a.shape == b.shape and np.array_equal(a, b, equal_nan=True)))
        a, b = A.as_arr(a), A.as_arr(b)
        if a.ndim != b.ndim:
            return lift(False)
        sa, sb = [tuple(norm(d) for d in v.shape) for v in (a, b)]
        if all(isinstance(d, int) for d in sa + sb) and int(np.prod(sa)) <= 40:
            return And(*[deep(a.read(*i), b.read(*i)) for i in np.ndindex(*sa)]) if sa == sb else lift(False)
        return equal_arrays(a, b)
    num = lambda v: isinstance(v, (S, int, float, np.integer, np.floating)) and not isinstance(v, bool)
    if num(a) and num(b):
        inf = [not isinstance(v, S) and bool(np.isinf(v)) for v in (a, b)]
        if any(inf):
            # no term stands for an infinite number
            return lift(all(inf) and bool(a == b))
        return same(a, b)
    if isinstance(a, S) or isinstance(b, S):
        if isinstance(a, (S, bool, np.bool_)) and isinstance(b, (S, bool, np.bool_)):
            return same(a, b)
        return lift(False)
    if isinstance(a, pd.Index) and isinstance(b, pd.Index):
        return lift(bool(list(a) == list(b)))
    if hasattr(a, 'key_') and hasattr(b, 'key_'):
        return deep(a.key_, b.key_)
    try:
        return lift(bool(type(a) is type(b) and a == b))
    except Exception:
        return lift(False)


def cols(a, b):
    if isinstance(a, frame.SymCols) or isinstance(b, frame.SymCols):
        return frame.same_cols(a, b)
    return list(map(str, a)) == list(map(str, b))


def rows(a, b):
    if a is b:
        return lift(True)
    return And(lift(a.n) == b.n, equal_arrays(A.as_arr(a), A.as_arr(b)))


class Oracle:
    def __init__(self, h):
        self.h, self.phase, self.log, self.k = h, 'first', [], 0

    def ask(self, name, args, make):
        if self.phase == 'first':
            return make()
        if self.phase == 'again':
            r = make()
            self.log.append((name, frozen(args), r))
            return r
        i, self.k = self.k, self.k + 1
        if i >= len(self.log) or self.log[i][0] != name:
            self.h.ensure('%sthe library is asked the same questions in the same order' % self.tag, lift(False))
            return make()
        self.h.ensure('%ssame question to the library: %s' % (self.tag, name), deep(self.log[i][1], frozen(args)))
        return fresh_copy(self.log[i][2])

    def start(self, phase):
        self.phase = phase
        if phase == 'again':
            self.log, self.k = [], 0

    tag = ''


def frozen(v):
    """the value now (arrays can be written to later)"""
    if isinstance(v, A.Arr):
        return A.Arr(v.shape, v.snapshot(), v.kind)
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, Lib):
        c = Lib.__new__(Lib)
        c.name, c.made, c.fits = v.name, v.made, list(v.fits)
        return c
    if isinstance(v, (frame.Frame, frame.Series)):
        return v.copy()
    return v


def fresh_copy(r):
    return frozen(r) if isinstance(r, (A.Arr, np.ndarray, list, tuple, dict, frame.Frame, frame.Series)) else r


class Lib:
    """an object of a library: predicts from constructor arguments, last training data and request"""
    def __init__(self, o, name, *a, **k):
        self.o, self.name, self.made, self.fits = o, name, frozen(dict(k, args=list(a))), []

    def fit(self, x, y=None, *a, **k):
        self.fits = [frozen([x, y, list(a), {n: v for n, v in k.items() if v is not None}])]
        self.n_out = None if y is None else (1 if len(y.shape) == 1 else y.shape[1])
        self.n_in = x.shape[1]
        return self

    def predict(self, x, quantiles=None, **k):
        n = x.shape[0]
        if isinstance(quantiles, (list, tuple)):
            sh = (n, len(quantiles)) if self.n_out == 1 else (n, self.n_out, len(quantiles))
            if len(quantiles) == 1:
                sh = sh[:-1]
        else:
            sh = (n,) if self.n_out == 1 else (n, self.n_out)
        return self.o.ask('prediction of a ' + self.name, [self, x, quantiles], lambda: symbolic('pred', sh))

    def transform(self, x, **k):
        return self.o.ask('transform of a ' + self.name, [self, x], lambda: symbolic('scaled', x.shape))


class Scen:
    """the scenario generator: what it is fitted on and its settings are observed"""
    def __init__(self, o, **k):
        self.key_, self.q_vect, self.online_tree_reduction, self.additional_node, self.fitted = frozen({n: v for n, v in k.items() if n not in ('q_vect', 'additional_node')}), k['q_vect'], k.get('online_tree_reduction', True), k.get('additional_node', False), None

    def set_additional_node(self, v):
        self.additional_node = v

    def fit(self, y, x=None, n_scen=100, **k):
        self.fitted = frozen([y, x, n_scen, k])
        self.q_at_fit, self.node_at_fit = frozen(self.q_vect), self.additional_node


def data(h, name, nx, ny, xn='f', yn='t'):
    n = sint('rows_' + name, 1)
    ix = frame.time_index('t_' + name, n, True)
    x = frame.Frame([symbolic('%s_%s%d' % (name, xn, i), (n,)) for i in range(nx)], ix, pd.Index(['%s%d' % (xn, i) for i in range(nx)], dtype=object))
    y = frame.Frame([symbolic('%s_%s%d' % (name, yn, i), (n,)) for i in range(ny)], ix, pd.Index(['%s%d' % (yn, i) for i in range(ny)], dtype=object))
    return x, y


def common(h, o):
    """the pieces of the base class proved elsewhere (C05: residual quantiles; C07: rows kept under the cap), by what they depend on"""
    f = h.module(F)
    h.patch(f, 'ScenGen', lambda **k: Scen(o, **k))
    SG = f.ScenarioGenerator

    def err(self, errs, x):
        q = A.as_arr(self.q_vect).shape[0]
        if not self.conditional_to_hour:
            return o.ask('residual quantiles', [errs, self.q_vect], lambda: symbolic('resid', (errs.shape[1], q)))
        g = o.ask('residual quantiles by hour', [errs, x.index, self.q_vect], lambda: symbolic('resid', (24, errs.shape[1], q)))
        return ByHour(h, g, errs.shape[1], q)
    h.patch(SG, '_estimate_err_distr', err)

    def sub(self, x, y):
        m = self.max_scengen_rows
        if m is None:
            return x, y

        def make():
            n = sint('kept', 1)
            ix = frame.time_index('t_kept', n, True)
            c = lambda t: frame.Frame([symbolic('kept', (n,)) for _ in range(t.shape[1])], ix, t.columns)
            return c(x), c(y)
        return o.ask('rows kept under the cap', [x, y, m, self._get_scengen_subsample_seed()], make)
    h.patch(SG, '_maybe_subsample_for_scengen', sub)
    return f


class ByHour:
    def __init__(self, h, g, s, q):
        self.h, self.g, self.s, self.q = h, g, s, q
        self.key_ = g

    def __getitem__(self, hr):
        hr, g = lift(hr), self.g.snapshot()
        return A.Arr((self.s, self.q), lambda i, j: g(hr, i, j), 'f')


def use(h, o, m, phase, x, quant=True, **k):
    """what a user sees of a fitted model"""
    out = dict(forecast=m.predict(x, **k))
    if quant:
        # by hour: the loop over the hours is C05's (point forecast plus the residual quantile of the hour), here the quantiles that enter it are compared
        if not m.conditional_to_hour:
            out['quantile forecast'] = m._predict_quantiles(x, **k)
        out['residual quantiles'] = m.err_distr
    else:
        out['quantile forecast'] = m.predict_quantiles(x, **k)
    s = m.scengen
    out.update({'levels': m.q_vect, 'targets': m.target_cols, 'hours used': m.conditional_to_hour, 'number of scenarios': m.n_scen_fit, 'data of the scenario generator': s.fitted, 'settings of the scenario generator': s.key_, 'levels of the scenario generator': [s.q_vect, s.q_at_fit],
                'additional node of the scenario generator': [s.additional_node, s.node_at_fit]})
    return {n: frozen(v) for n, v in out.items()}


def refit(h, o, make, start, change, d1, d2, tag, requests, **k):
    """make(settings) -> new model"""
    tag = tag + ': ' if tag else ''
    o.tag = tag
    o.start('first')
    a = make(start)
    a.fit(*d1)
    if requests == 'used':
        use(h, o, a, 'first', d1[0], **k)
    a.set_params(**change)
    o.start('again')
    try:
        a.fit(*d2)
        u = use(h, o, a, 'again', h.req, **k)
    except (ValueError, IndexError, KeyError, AssertionError) as e:
        o.start('first')
        b = make(dict(start, **change))
        b.fit(*d2)
        use(h, o, b, 'fresh', h.req, **k)
        h.ensure('%sa model fitted again does not fail where a new one does not' % tag, lift(False))
        return
    o.start('fresh')
    b = make(dict(start, **change))
    b.fit(*d2)
    v = use(h, o, b, 'fresh', h.req, **k)
    h.ensure('%ssame number of questions to the library' % tag, lift(o.k == len(o.log)))
    for n in u:
        h.ensure('%s%s of the model fitted again is that of a new one' % (tag, n), deep(u[n], v[n]))
    h.ensure('%sfit leaves the settings as they were set' % tag, And(*[deep(getattr(a, n), w) for n, w in change.items()]))


def changes(sett, groups=True):
    """no change, each setting alone, all together"""
    yield 'nothing changed', {}
    for n in sett:
        yield n + ' changed', {n: sett[n]}
    if groups and len(sett) > 1:
        yield 'everything changed', dict(sett)


def base_settings():
    return dict(q_vect=np.array([.125, .5]), val_ratio=None, n_scen_fit=5, conditional_to_hour=False)


def base_changes():
    return dict(q_vect=np.array([.25, .5, .75]), val_ratio=sreal('ratio2'), n_scen_fit=sint('n_scen2', 1), conditional_to_hour=True, max_scengen_rows=sint('cap2', 1), scengen_random_state=sint('seed2', 0), additional_node=True)


def W_refit(kind):
    def w(h, m):
        S_ = dict(linear=dict(kind='ridge', val_ratio=.5, n_scen_fit=7, conditional_to_hour=False, max_scengen_rows=72, q_vect=[.1, .5, .9], additional_node=True),
                  lgb=dict(n_estimators=2, num_leaves=3, learning_rate=.5, max_depth=1, min_child_samples=8, colsample_bytree=.5, q_vect=[.1, .5, .9], val_ratio=.5, conditional_to_hour=False, max_scengen_rows=72),
                  qrf=dict(n_estimators=2, max_depth=1, min_samples_leaf=9, max_features=.5, random_state=3, bootstrap=False, criterion='absolute_error', min_samples_split=9, q_vect=[.1, .5, .9]),
                  rff=dict(dim_kernel=9, std_kernel=.5, q_vect=[.1, .5, .9], val_ratio=.5, base_model='ridge', additional_node=True),
                  arff=dict(dim_kernel=9, std_kernel=.5, n_models=3, q_vect=[.1, .5, .9], base_model='ridge', additional_node=True),
                  hybrid=dict(n_estimators=2, num_leaves=3, learning_rate=.5, max_depth=1, min_child_samples=8, q_vect=[.1, .5, .9]),
                  energy=dict(n_estimators=2, num_leaves=3, learning_rate=.5, max_depth=1, q_vect=[.1, .5, .9], val_ratio=.5))
        st = S_[kind]
        seqs = [{}] + [{k: v} for k, v in st.items()]
        return [dict(case='refit', params=dict(kind=kind, first=dict(n=150, nf=3, ny=ny1, seed=3), seq=[dict(set=c, n=170, nf=nf, ny=ny2, seed=8, cols='z')], q=[.1, .9], val_ratio=None, rs=1, use=u))
                for i, c in enumerate(seqs) for ny1, ny2, nf, u in [((2, 2, 3, True), (2, 1, 4, True), (1, 3, 2, False))[i % 3]] + ([(2, 1, 4, True), (1, 2, 2, True)] if not c else [])]
    return w


SHAPES = {'same tables': (2, 2, 2, 2), 'other features and targets': (2, 1, 3, 2), 'fewer targets': (2, 3, 1, 1)}


def linear_make(f, start):
    kw = dict(start)
    cond, ns = kw.pop('conditional_to_hour'), kw.pop('n_scen_fit')
    return f.LinearForecaster(conditional_to_hour=cond, n_scen_fit=ns, **kw)


for _sh, (_x1, _y1, _x2, _y2) in SHAPES.items():
    @contract('linear forecaster, %s' % _sh, [P + 'forecaster.py: LinearForecaster.fit, LinearForecaster.predict, LinearForecaster._predict_quantiles', P + 'forecaster.py: ScenarioGenerator.fit, ScenarioGenerator.set_params, ScenarioGenerator.train_val_split, encode_categorical'], W_refit('linear'))
    def _lin(h, s=(_x1, _y1, _x2, _y2)):
        o = Oracle(h)
        f = common(h, o)
        h.patch(f, 'LinearRegression', lambda *a, **k: Lib(o, 'linear regression', *a, **k))
        h.patch(f, 'RidgeCV', lambda *a, **k: Lib(o, 'ridge regression', *a, **k))
        d1, d2 = data(h, 'one', s[0], s[1]), data(h, 'two', s[2], s[3], *(('g', 'z') if s[1] != s[3] else ('f', 't')))
        h.req = data(h, 'req', s[2], 1, 'g' if s[1] != s[3] else 'f')[0]
        ch = dict(base_changes(), kind='ridge')
        h.assume(And(ch['val_ratio'] >= 0, ch['val_ratio'] <= 1))
        for nm, c in changes(ch):
            refit(h, o, lambda st: linear_make(f, st), base_settings(), c, d1, d2, nm, 'used')


LGBP = ('device_type', 'max_depth', 'n_estimators', 'num_leaves', 'learning_rate', 'min_child_samples', 'n_jobs', 'objective', 'verbose', 'metric', 'colsample_bytree', 'colsample_bynode')


def lgb_changes():
    r = {k: sint(k + '2', 1) for k in ('max_depth', 'n_estimators', 'num_leaves', 'min_child_samples', 'n_jobs', 'verbose')}
    r.update({k: sreal(k + '2') for k in ('learning_rate', 'colsample_bytree', 'colsample_bynode')})
    return dict(r, objective='quantile', metric='l1', device_type='gpu')


class Booster(Lib):
    """lightgbm.train(parameters, data, rounds): a regressor trained once"""
    def __init__(self, o, pars, d, num_boost_round=100, **k):
        Lib.__init__(self, o, 'booster', pars, num_boost_round, **k)
        self.fits, self.n_out, self.n_in = [frozen(d)], 1, d[0].shape[1]


def general(f, cls, names):
    """constructor call with the settings the class takes, the others set before the first fit"""
    def make(start):
        kw = {k: v for k, v in start.items() if k in names}
        m = getattr(f, cls)(**kw)
        for k, v in start.items():
            if k not in kw:
                m.__dict__[k] = v
        return m
    return make


def settle(h, ch):
    if 'val_ratio' in ch:
        h.assume(And(ch['val_ratio'] >= 0, ch['val_ratio'] <= 1))
    return ch


def tables(h, s):
    nm = ('g', 'z') if s[1] != s[3] else ('f', 't')
    h.req = data(h, 'req', s[2], 1, nm[0])[0]
    return data(h, 'one', s[0], s[1]), data(h, 'two', s[2], s[3], *nm)


KW = ('q_vect', 'val_ratio', 'n_scen_fit', 'conditional_to_hour', 'max_scengen_rows', 'scengen_random_state', 'additional_node')

for _sh, _s in SHAPES.items():
    @contract('boosted trees, %s' % _sh, [P + 'forecaster.py: LGBForecaster.fit, LGBForecaster.predict, LGBForecaster._predict_quantiles', P + 'forecaster.py: ScenarioGenerator.fit, ScenarioGenerator.set_params, ScenarioGenerator.train_val_split'], W_refit('lgb'))
    def _lgb(h, s=_s):
        o = Oracle(h)
        f = common(h, o)
        h.patch(f, 'Dataset', lambda x, y, **k: [x, y, k])
        h.patch(f, 'train', lambda *a, **k: Booster(o, *a, **k))
        d1, d2 = tables(h, s)
        for nm, c in changes(settle(h, dict(base_changes(), **lgb_changes()))):
            refit(h, o, general(f, 'LGBForecaster', KW + LGBP), base_settings(), c, d1, d2, nm, 'used')

    for _cls in ('LGBMHybrid', 'LGBEnergyAware'):
        @contract('%s, %s' % (dict(LGBMHybrid='one tree model per step', LGBEnergyAware='chained tree models')[_cls], _sh),
                  [P + 'forecasting_models/gradientboosters.py: %s.fit, %s.predict' % (_cls, _cls), P + 'forecasting_models/gradientboosters.py: LGBMHybrid.get_lgb_pars, LGBMHybrid._predict_quantiles', P + 'forecaster.py: ScenarioGenerator.fit, ScenarioGenerator.set_params'],
                  W_refit('hybrid' if _cls == 'LGBMHybrid' else 'energy'))
        def _hyb(h, s=_s, cls=_cls):
            o = Oracle(h)
            common(h, o)
            g = h.module(G)
            h.patch(g, 'LGBMRegressor', lambda *a, **k: Lib(o, 'tree regressor', *a, **k))
            d1, d2 = tables(h, s)
            ch = settle(h, dict(base_changes(), **lgb_changes()))
            start = dict(base_settings(), n_single=s[1])
            for nm, c in changes(ch):
                c = dict(c, n_single=s[3])
                refit(h, o, general(g, cls, KW + LGBP + ('n_single',)), start, c, d1, d2, nm, 'used')


QP = ('n_estimators', 'max_depth', 'n_jobs', 'n_single', 'bootstrap', 'oob_score', 'random_state', 'verbose', 'warm_start', 'max_samples', 'min_samples_split', 'min_samples_leaf', 'min_weight_fraction_leaf', 'max_features', 'criterion', 'ccp_alpha', 'parallel')


def qrf_changes():
    r = {k: sint(k + '2', 1) for k in ('n_estimators', 'max_depth', 'n_jobs', 'random_state', 'verbose', 'min_samples_split', 'min_samples_leaf')}
    r.update({k: sreal(k + '2') for k in ('max_samples', 'min_weight_fraction_leaf', 'max_features', 'ccp_alpha')})
    return dict(r, bootstrap=False, oob_score=True, criterion='absolute_error')


for _sh, _s in SHAPES.items():
    for _ns in ('all', 'none', 'one'):
        if _ns == 'one' and min(_s[1], _s[3]) < 2:
            continue

        @contract('quantile forest, %s models of their own, %s' % (_ns, _sh), [P + 'forecasting_models/randomforests.py: QRF.fit, QRF._fit, QRF.predict, QRF._predict, QRF.predict_multi_step', P + 'forecaster.py: ScenarioGenerator.fit, ScenarioGenerator.set_params, encode_categorical'], W_refit('qrf'))
        def _qrf(h, s=_s, ns=_ns):
            o = Oracle(h)
            common(h, o)
            g = h.module(Q)
            h.patch(g, 'RandomForestQuantileRegressor', lambda *a, **k: Lib(o, 'quantile forest', *a, **{n: v for n, v in k.items() if n != 'default_quantiles'}))
            d1, d2 = tables(h, s)
            start = dict(base_settings(), parallel=False, n_single=dict(all=s[1], none=0, one=1)[ns])
            ch = settle(h, dict(base_changes(), **qrf_changes()))
            h.assume(ch['n_jobs'] > 0)
            for nm, c in changes(ch):
                c = dict(c, n_single=dict(all=s[3], none=0, one=1)[ns])
                refit(h, o, general(g, 'QRF', ('q_vect', 'val_ratio', 'max_scengen_rows', 'scengen_random_state') + QP), start, c, d1, d2, nm, 'used', quant=False)


class Rand:
    """numpy.random: the k-th draw of a fit is an arbitrary function of its arguments"""
    def __init__(self, o):
        self.o = o

    def __getattr__(self, k):
        raise Unsupported('numpy.random.' + k)

    def randn(self, *d):
        return self.o.ask('normal draws', list(d), lambda: symbolic('normal', d))

    def uniform(self, low=0., high=1., size=None):
        return self.o.ask('uniform draws', [low, high, size], lambda: symbolic('uniform', size if isinstance(size, tuple) else (size,)))


RP = ('dim_kernel', 'std_kernel', 'W', 'b', 'n_models', 'base_model')


class Kind:
    """a class of regressors"""
    def __init__(self, o, name):
        self.o, self.key_ = o, name

    def __call__(self, *a, **k):
        return Lib(self.o, self.key_, *a, **k)


for _sh, _s in SHAPES.items():
    for _cls in ('RFFRegression', 'AdditiveRFFRegression'):
        @contract('%s, %s' % (dict(RFFRegression='random Fourier features', AdditiveRFFRegression='boosted random Fourier features')[_cls], _sh),
                  [P + 'forecasting_models/random_fourier_features.py: %s.fit, %s.predict, %s._predict_quantiles' % (_cls, _cls, _cls), P + 'forecasting_models/random_fourier_features.py: RandomFFRegressor.fit, RandomFFRegressor.predict, Base.reset_weight, Base.set_weight, Base.conv',
                   P + 'forecaster.py: ScenarioGenerator.fit, ScenarioGenerator.set_params'], W_refit('rff' if _cls[0] == 'R' else 'arff'))
        def _rff(h, s=_s, cls=_cls):
            o = Oracle(h)
            common(h, o)
            g = h.module(R)
            h.patch(g, 'np', NPWith(g.np, random=Rand(o)))
            pre = types.SimpleNamespace(StandardScaler=lambda *a, **k: Lib(o, 'scaler', *a, **k))
            h.patch(g, 'sklearn', types.SimpleNamespace(preprocessing=pre))
            d1, d2 = tables(h, s)
            start = dict(base_settings(), dim_kernel=2, std_kernel=sreal('std'), base_model=Kind(o, 'linear regression'))
            ch = settle(h, dict(base_changes(), dim_kernel=3, std_kernel=sreal('std2'), base_model=Kind(o, 'ridge regression')))
            if cls[0] == 'A':
                start['n_models'], ch['n_models'] = 2, 1
            for nm, c in changes(ch):
                refit(h, o, general(g, cls, KW + RP), start, c, d1, d2, nm, 'used')
            for st, nm, c in ((start, 'random matrix given', dict(W=symbolic('W', (s[2], 2)), b=symbolic('b', (2,)))),
                              (dict(start, W=symbolic('W', (s[0], 2)), b=symbolic('b', (2,))), 'given random matrix withdrawn', dict(W=None, b=None))):
                refit(h, o, general(g, cls, KW + RP), st, c, d1, d2, nm, 'used')


# ---------------------------------------------------------------- forecasters of one series
def series_data(h, name, names=('t', 'u')):
    n = sint('rows_' + name, 40)
    ix = frame.time_index('t_' + name, n, True)
    return frame.Frame([symbolic('%s_%s' % (name, c), (n,)) for c in names], ix, pd.Index(list(names), dtype=object))


def pure(h, o, m, name, make):
    """a library function or one under its own contract: its result is a function of its arguments"""
    h.patch(m, name, lambda *a, **k: o.ask(name, [list(a), dict(k)], lambda: make(*a, **k)))


class LinAlg:
    def __init__(self, o):
        self.o = o

    def pinv(self, a):
        return self.o.ask('pseudo-inverse', [a], lambda: symbolic('pinv', a.shape[::-1]))

    def __getattr__(self, k):
        raise Unsupported('numpy.linalg.' + k)


def tuned(x, cls, hyperpars=None, n_trials=0, model_init_kwargs=None, **k):
    """best trial: the settings of the model handed over, with tuned values for the hyperparameters"""
    r = dict(model_init_kwargs)
    model_init_kwargs.update(optimize_hyperpars=False)
    r.update({n: sreal('tuned_' + n) for n in hyperpars}, optimize_hyperpars=False)
    if getattr(cls, '__name__', '') == 'HoltWintersMulti':
        r.update(alphas=[sreal('tuned_alphas') for _ in r['models_periods']], gammas_1=[sreal('tuned_g1') for _ in r['models_periods']], gammas_2=[sreal('tuned_g2') for _ in r['models_periods']], optimize_submodels_hyperpars=False)
    return r


def tuning(h, o, m):
    def f(x, cls, hyperpars=None, n_trials=100, return_model=True, parallel=True, model_init_kwargs=None):
        args = [x, cls.__name__, {n: v for n, v in hyperpars.items()}, n_trials, {n: v for n, v in model_init_kwargs.items() if n not in ('optimize_hyperpars', 'alpha', 'gamma_1', 'gamma_2', 'omega', 'n_harmonics', 'r', 'q', 'verbose') or n not in hyperpars and n != 'optimize_hyperpars'}]
        return dict(o.ask('tuning', args, lambda: tuned(x, cls, hyperpars, n_trials, dict(model_init_kwargs))))
    h.patch(m, 'tune_hyperpars', f)


def series_use(h, o, m, phase, x, **k):
    out = {'forecast': m.predict(x)}
    out['quantile forecast'] = m._predict_quantiles(x)
    out.update({'residual quantiles': m.err_distr, 'levels': m.q_vect, 'targets': m.target_cols})
    return {n: frozen(v) for n, v in out.items()}


def series_refit(h, o, make, change, d1, d2, req, tag):
    o.tag = tag = tag + ': '
    o.start('first')
    a = make({})
    given = {n: v for n, v in a.get_params().items()}
    a.fit(d1)
    series_use(h, o, a, 'first', d1)
    a.set_params(**change)
    o.start('again')
    try:
        a.fit(d2)
        u = series_use(h, o, a, 'again', req)
    except (ValueError, IndexError, KeyError, AssertionError) as e:
        o.start('first')
        b = make(dict(given, **change))
        b.fit(d2)
        series_use(h, o, b, 'fresh', req)
        h.ensure('%sa model fitted again does not fail where a new one does not' % tag, lift(False))
        return
    o.start('first')
    b = make(dict(given, **change))
    o.start('fresh')
    b.fit(d2)
    v = series_use(h, o, b, 'fresh', req)
    h.ensure('%ssame number of questions to the library' % tag, lift(o.k == len(o.log)))
    for n in u:
        h.ensure('%s%s of the model fitted again is that of a new one' % (tag, n), deep(u[n], v[n]))
    h.ensure('%sfit leaves the settings as they were set' % tag, And(*[deep(getattr(a, n), w) for n, w in change.items() if n in given and n not in ('alpha', 'gamma_1', 'gamma_2', 'omega', 'n_harmonics', 'r', 'q')]))


def windows(x, n, generate_me=None):
    return symbolic('windows', (norm(lift(A.as_arr(x).shape[0]) - n + 1), n))


def hw_modules(h, o):
    common(h, o)
    hw = h.module(HW)
    h.patch(hw, 'np', NPWith(hw.np, linalg=LinAlg(o)))
    pure(h, o, hw, 'hankel', windows)

    def run(horizon, period, alpha, beta, gamma, s1, s2, am1, bm1, Y, y_tot, y0, constraints):
        n = A.as_arr(Y).shape[0]
        return (symbolic('pass', (n, A.as_arr(horizon).shape[0])), sreal('level'), sreal('trend'), symbolic('s1', A.as_arr(s1).shape), symbolic('s2', A.as_arr(s2).shape))
    pure(h, o, hw, 'run', run)
    tuning(h, o, hw)
    return hw


def W_series(kind, tun):
    k = dict(HoltWinters='hw', HoltWintersMulti='hwmulti', Fourier_es='fes', FK='fk', FK_multi='fkm', Persistent='persistent', SeasonalPersistent='seasonal')[kind]

    def w(h, m):
        r = [dict(case='series', params=dict(kind=k, n=[100, 80, 120], seed=5, n_sa=s, refits=1, use=True, val=.8, set=st)) for s in (1, 3) for st in (False, True)]
        if k in ('hw', 'hwmulti', 'fes', 'fk', 'fkm'):
            for c in range(6):
                for kk in {'hwmulti': ['hwm'], 'fkm': ['fkm', 'fkm_plain']}.get(k, [k]):
                    r.append(dict(case='tuned', params=dict(kind=kk, change=c, n=[80, 90], seed=4, rs=3, first=1)))
        return r
    return w


for _t in (False, True):
    @contract('smoothing%s' % (', tuned' if _t else ''), [P + 'forecasting_models/holtwinters.py: HoltWinters.fit, HoltWinters.predict, HoltWinters._predict_quantiles, HoltWinters.reinit, HoltWinters._run', P + 'forecaster.py: ScenarioGenerator.set_params, ScenarioGenerator.get_params'], W_series('HoltWinters', _t))
    def _hw(h, t=_t):
        o = Oracle(h)
        hw = hw_modules(h, o)
        d1, d2, req = series_data(h, 'one'), series_data(h, 'two'), series_data(h, 'req')
        start = dict(periods=[2, 3], target_name='t', n_sa=2, q_vect=np.array([.125, .5]), optimize_hyperpars=t, optimization_budget=5, alpha=sreal('alpha'), gamma_1=sreal('gamma_1'), verbose=False)
        ch = dict(periods=[3, 5], target_name='u', n_sa=1, q_vect=np.array([.25, .5, .75]), optimization_budget=sint('budget2', 1), alpha=sreal('alpha2'), gamma_1=sreal('gamma_12'), gamma_2=sreal('gamma_22'), beta=sreal('beta2'), constraints=[lift(0.), sreal('upper')])
        for nm, c in changes(ch):
            series_refit(h, o, lambda s: hw.HoltWinters(**dict(start, **s)), c, d1, d2, req, nm)


import ast, os, load as _load


def reads(path, cls, method):
    """attributes of self that the method, and the methods of self it calls, read (from the current source)"""
    tree = ast.parse(open(os.path.join(_load.REPO, path)).read())
    classes = {c.name: c for c in tree.body if isinstance(c, ast.ClassDef)}

    def find(c, m):
        while c in classes:
            for f in classes[c].body:
                if isinstance(f, ast.FunctionDef) and f.name == m:
                    return f
            b = [x.id for x in classes[c].bases if isinstance(x, ast.Name)]
            c = b[0] if b else None
    out, todo, seen = set(), [method], set()
    while todo:
        m = todo.pop()
        f = find(cls, m)
        if m in seen or f is None:
            continue
        seen.add(m)
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                out.add(n.attr)
                todo.append(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'vars', 'super'):
                return None
    return None if '__dict__' in out else sorted(a for a in out if find(cls, a) is None)


class Token:
    """an arbitrary value the code only hands on"""


def passes(h, o, m, cls, path):
    """cls.run by what it depends on: its arguments and the attributes it reads (found in the source); it writes the states when fitting"""
    names = reads(path, cls, 'run')

    def run(self, x, y=None, return_coeffs=None, start_from=0, fit=True):
        at = {k: v for k, v in self.__dict__.items() if k not in ('logger', 'scengen', 'coeffs_t_history') and (names is None or k in names)}
        n, s = x.shape[0], self.n_sa
        keys = sorted(self.states)
        if cls == 'FK_multi':
            for sub in self.models:
                if fit:
                    sub.fit(x)
        r = o.ask('pass over the series', [x, y, start_from, fit, at], lambda: (symbolic('pass', (n, s)), [Token() for _ in keys]))
        if fit:
            for k, t in zip(keys, r[1]):
                self.states[k] = t
        out = fresh_copy(r[0])
        return (out, None) if cls == 'FK_multi' else out
    h.patch(getattr(m, cls), 'run', run)


class Sub(Lib):
    def __init__(self, o, **k):
        Lib.__init__(self, o, 'sub-model', **k)


for _cls in ('Fourier_es', 'FK', 'FK_multi'):
    for _t in (False, True):
        @contract('%s%s' % (dict(Fourier_es='adaptive Fourier', FK='Kalman Fourier', FK_multi='mixture of Fourier models')[_cls], ', tuned' if _t else ''),
                  [P + 'forecasting_models/fast_adaptive_models.py: %s.predict, %s.reinit_pars, %s._predict_quantiles' % (_cls, _cls, _cls) + (', FK_multi.fit' if _cls == 'FK_multi' else ', %s.store_basis' % _cls), P + 'forecasting_models/fast_adaptive_models.py: StatefulForecaster.fit, StatefulForecaster.tune_hyperpars, get_basis', P + 'forecaster.py: ScenarioGenerator.set_params, ScenarioGenerator.get_params'],
                  W_series(_cls, _t))
        def _fourier(h, cls=_cls, t=_t):
            o = Oracle(h)
            common(h, o)
            hw = h.module(HW)
            fa = h.module(FA)
            for m in (hw, fa):
                pure(h, o, m, 'hankel', windows)
                tuning(h, o, m)
            passes(h, o, fa, cls, 'pyforecaster/forecasting_models/fast_adaptive_models.py')
            d1, d2, req = series_data(h, 'one'), series_data(h, 'two'), series_data(h, 'req')
            start = dict(target_name='t', n_sa=2, m=6, q_vect=np.array([.125, .5]), optimize_hyperpars=t, optimization_budget=5, verbose=False, periodicity=3)
            ch = dict(m=8, target_name='u', n_sa=1, q_vect=np.array([.25, .5, .75]), optimization_budget=sint('budget2', 1), periodicity=4)
            if cls == 'FK_multi':
                start.update(n_predictors=2, base_predictor=Kind(o, 'sub-model'), optimize_submodels_hyperpars=False)
                h.patch(Kind, '__deepcopy__', lambda self, memo: self)
                ch.update(n_predictors=3, r=sreal('r2'), q=sreal('q2'), optimize_submodels_hyperpars=True, base_predictor=Kind(o, 'other sub-model'))
            else:
                start.update(alpha=.5, omega=.75, n_harmonics=2)
                ch.update(alpha=.25, omega=.5, n_harmonics=3, **(dict(r=sreal('r2'), q=sreal('q2')) if cls == 'FK' else {}))
            for nm, c in changes(ch):
                series_refit(h, o, lambda s: getattr(fa, cls)(**dict(start, **s)), c, d1, d2, req, nm)


for _cls in ('Persistent', 'SeasonalPersistent'):
    @contract(dict(Persistent='persistence', SeasonalPersistent='seasonal persistence')[_cls], [P + 'forecasting_models/benchmarks.py: %s.fit, %s.predict, %s._predict_quantiles' % (_cls, _cls, _cls), P + 'forecaster.py: ScenarioGenerator.fit, ScenarioGenerator.set_params'], W_series(_cls, False))
    def _pers(h, cls=_cls):
        o = Oracle(h)
        common(h, o)
        b = h.module(B)
        pure(h, o, b, 'hankel', windows)
        d1, d2 = series_data(h, 'one'), series_data(h, 'two')
        h.req = series_data(h, 'req')
        start = dict(q_vect=np.array([.125, .5]), n_scen_fit=5, conditional_to_hour=False, val_ratio=None, target_col='t', n_sa=2)
        ch = dict(base_changes(), target_col='u', n_sa=3)
        r = ch['val_ratio']
        h.assume(And(r >= lift(.5), r <= lift(.75)))
        if cls[0] == 'S':
            start['seasonality'], ch['seasonality'] = 4, 3
        for nm, c in changes(ch):
            refit(h, o, general(b, cls, KW + ('target_col', 'n_sa', 'seasonality')), start, c, (d1,), (d2,), nm, 'used')
