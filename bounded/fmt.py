"""Independent reading of a formatter configuration: which column, which window, which function."""
from common import *
from itertools import product

FUNS = {'mean': np.mean, 'min': np.min, 'max': np.max, 'sum': np.sum, 'median': np.median,
        'std': lambda v: np.std(v, ddof=1) if len(v) > 1 else np.nan}


def ptp(v):
    return float(np.max(v) - np.min(v))


def resolve(f):
    return ptp if f == 'ptp' else f


def spec_columns(cfg, name):
    """list of (function name or None, first offset, last offset[, further offsets needed]) in steps relative to the row, in column order"""
    funs = cfg.get('functions')
    lags = cfg.get('lags')
    agg = cfg.get('agg') or 1
    bins = cfg.get('bins')
    rel = cfg.get('relative', False)
    out = []
    if bins is not None:
        e = sorted(bins, reverse=True)
        pairs = list(zip(e[:-1], e[1:]))
        width = e[0] - e[-1]
        step = width if rel else 1
        for l in (lags if lags is not None else [0]):
            inner = [(p, f) for p in pairs for f in funs] if cfg.get('nested', True) else [(p, f) for f in funs for p in pairs]
            for (a, b), f in inner:
                # bin (b, a] steps back, shifted by the lag
                # the whole set of bins (nested=False) / the row the lag refers to must be inside the data as well
                need = (-l * step, -l * step) if cfg.get('nested', True) else (-(e[0] + l * step) + 1, -(e[-1] + l * step))
                out.append((f, -(a + l * step) + 1, -(b + l * step), need))
    else:
        step = agg if rel else 1
        for l in (lags if lags is not None else [0]):
            for f in (funs or [None]):
                if f is None:
                    out.append((None, -l * step - agg + 1, -l * step))
                else:
                    out.append((f, -l * step - agg + 1, -l * step))
    return out


def spec_values(v, col):
    f, lo, hi = col[:3]
    if f is None:
        lo = hi              # no function: the latest sample of the window
    need = col[3] if len(col) > 3 else (lo, hi)
    n = len(v)
    out = np.full(n, np.nan)
    fun = FUNS.get(f) or (ptp if f == 'ptp' else None)
    for r in range(n):
        a, b = r + lo, r + hi
        if a < 0 or b >= n or r + need[0] < 0 or r + need[1] >= n or r + need[0] >= n or r + need[1] < 0:
            continue
        w = v[a:b + 1]
        if np.isnan(w).any():
            continue
        out[r] = w[0] if f is None else fun(w)
    return out


def make_kwargs(cfg, dt_min):
    k = {}
    if cfg.get('functions') is not None:
        k['functions'] = [resolve(f) for f in cfg['functions']]
    if cfg.get('agg') is not None:
        a = cfg['agg']
        form = cfg.get('agg_form', 'str')
        k['agg_freq'] = {'str': '%dmin' % (a * dt_min), 'int': a, 'td': pd.Timedelta(minutes=a * dt_min)}[form]
    if cfg.get('lags') is not None:
        k['lags'] = cfg['lags'][0] if cfg.get('scalar_lag') and len(cfg['lags']) == 1 else (np.array(cfg['lags']) if cfg.get('np_lags') else list(cfg['lags']))
    if cfg.get('relative'):
        k['relative_lags'] = True
    if cfg.get('bins') is not None:
        k['agg_bins'] = list(cfg['bins'])
    if cfg.get('nested') is False:
        k['nested'] = False
    return k


def gen_cfg(rng, i, names, target=False, allow_bins=True):
    kind = rng.choice(['lag', 'agg', 'agglag', 'rel', 'bins', 'binlag'] if allow_bins else ['lag', 'agg', 'agglag', 'rel'])
    if target and kind == 'agg':
        kind = 'lag'
    cfg = dict(names=names)
    def lags():
        m = rng.choice([1, 1, 2, 3, 4])
        if target:
            return [-(j + 1) for j in range(m)]
        pool = rng.choice(['pos', 'pos', 'mixed', 'neg'])
        c = {'pos': range(0, 9), 'mixed': range(-5, 8), 'neg': range(-6, 0)}[pool]
        l = rng.sample(list(c), m)
        return l if rng.random() < .5 else sorted(l)
    def funs():
        return rng.sample(['mean', 'min', 'max', 'sum', 'median', 'std', 'ptp'], rng.choice([1, 1, 2, 3]))
    if kind == 'lag':
        cfg['lags'] = lags()
        if rng.random() < .3:
            cfg['agg'] = rng.choice([1, 2, 3])
    elif kind == 'agg':
        cfg.update(agg=rng.randint(1, 6), functions=funs())
    elif kind == 'agglag':
        cfg.update(agg=rng.randint(1, 5), functions=funs(), lags=lags())
    elif kind == 'rel':
        cfg.update(agg=rng.randint(1, 4), lags=lags()[:2], relative=True)
        if rng.random() < .7:
            cfg['functions'] = funs()
    else:
        k = rng.choice([2, 3, 4])
        lo = rng.choice([0, 0, 1, 3]) if not target else -rng.choice([4, 6])
        edges = sorted(rng.sample(range(lo, lo + 12), k))
        if target:
            edges = sorted(rng.sample(range(-8, 1), k))
        if rng.random() < .3:
            edges = edges[::-1]
        cfg.update(bins=edges, functions=funs())
        if kind == 'binlag':
            cfg['lags'] = lags()[:2]
            if rng.random() < .3:
                cfg['relative'] = True
    if 'agg' in cfg:
        cfg['agg_form'] = rng.choice(['str', 'str', 'td', 'int'])
    if rng.random() < .3:
        cfg['np_lags'] = True
    elif rng.random() < .2:
        cfg['scalar_lag'] = True
    return cfg


def make_data(p):
    g = np.random.default_rng(p['seed'])
    idx = whole_index(p['n'], p['dt'], start=p.get('start', '2021-03-27 00:00'), tz=p.get('tz'))
    v = g.normal(size=(p['n'], len(p['cols']))) * 3 + 1
    for r, c in p.get('nans', []):
        v[r % p['n'], c % len(p['cols'])] = np.nan
    return pd.DataFrame(v, index=idx, columns=p['cols'])


def time_tables(p, cfgs):
    return [(c, nm, col) for c in cfgs for nm in c['names'] for col in spec_columns(c, nm)]
