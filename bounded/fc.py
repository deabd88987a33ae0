"""Small random forecasting problems and forecaster factories shared by several properties."""
from common import *


def names(base, n, seed):
    """column names whose alphabetical order is, or is not, their order in the table"""
    k = seed % 4
    if k == 0:
        return ['%s%d' % (base, j) for j in range(n)]
    if k == 1:
        return ['%s_%d' % (base, 8 + j) for j in range(n)]
    if k == 2:
        return ['%s%s' % ('zyxwvutsrqponm'[j], base) for j in range(n)]
    return ['%s_lag_%+03d' % (base, -j) for j in range(n)]


def table(p):
    """x: features with a DatetimeIndex, y: targets; p: seed, n, dt (min), nf, ny, tz, start"""
    g = np.random.default_rng(p['seed'])
    n = p['n']
    idx = whole_index(n, p['dt'], start=p.get('start', '2021-05-01 00:00'), tz=p.get('tz'))
    x = pd.DataFrame(g.normal(size=(n, p['nf'])), index=idx, columns=names('f', p['nf'], p['seed'] // 4))
    w = g.normal(size=(p['nf'], p['ny']))
    h = idx.hour.values.reshape(-1, 1)
    y = pd.DataFrame(x.values @ w + 0.3 * g.normal(size=(n, p['ny'])) * (1 + h / 12) + 0.2 * h, index=idx,
                     columns=p.get('ycols') or names('y', p['ny'], p['seed']))
    return x, y


def make(kind, p):
    q = np.array(p['q'])
    kw = dict(q_vect=q, val_ratio=p.get('val_ratio'), n_scen_fit=5)
    kw.update(p.get('kw', {}))
    lg = dict(n_estimators=4, num_leaves=4, min_child_samples=2, n_jobs=1)
    if kind in ('linear', 'ridge'):
        from pyforecaster.forecaster import LinearForecaster
        return LinearForecaster(kind=kind, **kw)
    if kind == 'lgb':
        from pyforecaster.forecaster import LGBForecaster
        return LGBForecaster(n_jobs_predict=1, **lg, **kw)
    if kind == 'hybrid':
        from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
        return LGBMHybrid(n_single=p['ny'], **lg, **kw)
    if kind == 'hybrid_multi':
        from pyforecaster.forecasting_models.gradientboosters import LGBMHybrid
        return LGBMHybrid(n_single=max(p['ny'] - 1, 1) if p['ny'] > 1 else 0, **lg, **kw)
    if kind == 'energy':
        from pyforecaster.forecasting_models.gradientboosters import LGBEnergyAware
        return LGBEnergyAware(n_single=p['ny'], **lg, **kw)
    if kind == 'rff':
        from pyforecaster.forecasting_models.random_fourier_features import RFFRegression
        return RFFRegression(dim_kernel=4, **kw)
    if kind == 'arff':
        from pyforecaster.forecasting_models.random_fourier_features import AdditiveRFFRegression
        return AdditiveRFFRegression(n_models=2, dim_kernel=4, **kw)
    if kind == 'qrf':
        from pyforecaster.forecasting_models.randomforests import QRF
        return QRF(n_estimators=5, parallel=False, n_jobs=1, random_state=p['seed'] % 1000, n_single=p.get('n_single', p['ny']), **kw)
    raise ValueError(kind)


QS = [[0.5], [0.1, 0.9], [0.1, 0.5, 0.9], [0.05, 0.25, 0.5, 0.8], [0.01, 0.2, 0.4, 0.6, 0.8, 0.99]]
