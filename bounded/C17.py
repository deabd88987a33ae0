"""C17: scores equal their definitions, cell by cell, against a direct evaluation on the real functions."""
import math
from common import *
from functools import partial
import pyforecaster.metrics as M


def group_ref(cells, labels, axis, post=lambda v: v):
    """mean of the cells each label groups (NaN cells left out)"""
    out = {}
    a = np.asarray(cells, float)
    a = a if axis == 0 else a.T
    for g in dict.fromkeys(labels):
        sel = a[[i for i, l in enumerate(labels) if l == g]]
        r = []
        for j in range(sel.shape[1]):
            v = [c for c in sel[:, j] if not np.isnan(c)]
            r.append(post(math.fsum(v) / len(v)) if v else np.nan)
        out[g] = r
    return out


def tables(p):
    g = np.random.default_rng(p['seed'])
    n, s = p['n'], p['s']
    idx = pd.date_range('2021-01-01', periods=n, freq='1h')[g.permutation(n)] if p['idx'] == 't' else list(range(5, 5 + n))
    cols = ['y_t+%d' % (j + 1) for j in range(s)] if p['cols'] == 's' else list(range(s))
    t = pd.DataFrame(g.normal(size=(n, s)) * p['scale'] + p['off'], index=idx, columns=cols)
    x = t + pd.DataFrame(g.normal(size=(n, s)), index=idx, columns=cols) * p['noise']
    if p['nan']:
        for _ in range(3):
            t.iloc[int(g.integers(n)), int(g.integers(s))] = np.nan
    return g, t, x


def labels_for(g, p, size):
    k = p['lab']
    if k == 'none':
        return None, None
    if k == 'int':
        l = [int(v) for v in g.integers(0, 3, size)]
    elif k == 'str':
        l = [str(v) for v in g.choice(['b', 'a', 'c'], size)]
    elif k == 'float':
        l = [float(v) for v in g.choice([.5, -1.25, 7.], size)]
    else:
        l = [0] * size
    return (np.array(l) if p['arr'] else pd.Index(l)), l


def compare(res, ref, other, what):
    check(list(res.columns) == list(other), '%s: columns %s, expected %s' % (what, list(res.columns)[:6], list(other)[:6]))
    check(sorted(map(str, res.index)) == sorted(map(str, ref)), '%s: groups %s, expected %s' % (what, list(res.index), list(ref)))
    for g in res.index:
        check(close(res.loc[g].values.astype(float), ref[g], rtol=1e-8, atol=1e-12), '%s: group %r is %s, expected %s' % (what, g, res.loc[g].values[:5], ref[g][:5]))


def setup(p):
    g, t, x = tables(p)
    size = p['n'] if p['axis'] == 0 else p['s']
    agg, labs = labels_for(g, p, size)
    axis = p['axis']
    if agg is None:
        axis, labs = 0, [1] * p['n']
    return g, t, x, agg, labs, axis


def lab_norm(res, labs):
    return res


def run_point(p):
    g, t, x, agg, labs, axis = setup(p)
    t0, x0 = t.copy(), x.copy()
    e = x.values - t.values
    other = t.columns if axis == 0 else t.index
    absmean = np.nanmean(np.abs(t.values), axis=1)
    refs = {
        'rmse': group_ref(e ** 2, labs, axis, math.sqrt),
        'mape': group_ref(np.abs(e) / (np.abs(t.values) + 1e-5), labs, axis),
        'nmae': group_ref(np.abs(e) / (absmean + np.nanmedian(absmean) * .01 + 1e-12)[:, None], labs, axis),
        'nmae_raw': group_ref(np.abs(e) / (absmean + 1e-12)[:, None], labs, axis)}
    for k, ref in refs.items():
        f = M.nmae if k == 'nmae_raw' else getattr(M, k)
        kw = dict(inter_normalization=False) if k == 'nmae_raw' else {}
        res = f(x, t, agg_index=agg, **kw)
        if agg is None:
            res = res.set_axis([1], axis=0)
        compare(res, ref, other, k)
        check((res.values[~np.isnan(res.values.astype(float))] >= 0).all(), k + ' is negative')
        z = f(t, t, agg_index=agg, **kw).values.astype(float)
        check((z[~np.isnan(z)] == 0).all(), k + ' of a perfect forecast is not zero')
        s = M.summary_score(x.rename(columns=dict(zip(x.columns, ['f%d' % j for j in range(p['s'])]))) if p['relabel'] else x, t, score=f, agg_index=agg)
        if k != 'nmae_raw':
            check(close(s.values.astype(float), res.values.astype(float)), 'summary score differs from ' + k)
    xx = x.copy()
    xx.columns = ['f%d' % j for j in range(p['s'])]
    keep = xx.copy()
    M.summary_score(xx, t, score=M.rmse, agg_index=agg)
    check(xx.equals(keep) and list(xx.columns) == list(keep.columns), 'summary_score changed the forecast table of the caller')
    check(t.equals(t0) and x.equals(x0), 'scoring changed the tables of the caller')
    return ['point', p['lab'], axis, p['nan'], p['n'] == p['s']]


def gen_point(rng, i, tier):
    n, s = rng.choice([(6, 3), (12, 4), (5, 5), (30, 2), (7, 1), (3, 8)])
    axis = rng.choice([0, 1]) if n != s else 0
    return dict(seed=rng.randrange(10**6), n=n, s=s, idx=rng.choice('ti'), cols=rng.choice('si'), scale=rng.choice([1, 100.]), off=rng.choice([0, 5.]), noise=rng.choice([0, .1, 10]),
                nan=rng.random() < .3, lab=rng.choice(['none', 'int', 'str', 'float', 'zero']), arr=rng.random() < .5, axis=axis, relabel=rng.random() < .5)


def run_quant(p):
    g, t, x, agg, labs, axis = setup(p)
    qs = sorted(set(round(float(v), 3) for v in g.uniform(.01, .99, p['nq'])))
    if len(qs) == p['s'] and p['form'] == 'q':
        return None
    q = x.values[:, :, None] + np.sort(g.normal(size=(p['n'], p['s'], len(qs))), axis=2)
    if p['tie']:
        q[0, 0, 0] = t.values[0, 0]
    if p['form'] == 'df':
        arg = pd.concat({c: pd.DataFrame(q[:, j, :], index=t.index, columns=qs) for j, c in enumerate(t.columns)}, axis=1)
    elif p['form'] == 'q':
        arg = np.swapaxes(q, 1, 2)
    else:
        arg = q
    keep, t0 = arg.copy(), t.copy()
    other = t.columns if axis == 0 else t.index
    qscore, rel = M.quantile_scores(arg, t, alphas=qs, agg_index=agg)
    pins = []
    for a, al in enumerate(qs):
        d = t.values - q[:, :, a]
        pin = np.where(d >= 0, al * d, (al - 1) * d)
        pins.append(pin)
        below = np.where(d < 0, 1., 0.)
        A, B = qscore[al], rel[al]
        if agg is None:
            A, B = A.set_axis([1], axis=0), B.set_axis([1], axis=0)
        compare(A, group_ref(pin, labs, axis), other, 'pinball loss at level %s' % al)
        compare(B, group_ref(below, labs, axis), other, 'reliability at level %s' % al)
    check(list(dict.fromkeys(qscore.columns.get_level_values(0))) == qs, 'levels of the quantile score are %s' % list(dict.fromkeys(qscore.columns.get_level_values(0))))
    c = M.crps(arg, t, alphas=qs, agg_index=agg)
    if agg is None:
        c = c.set_axis([1], axis=0)
    ref = group_ref(np.mean(pins, axis=0), labs, axis)
    compare(c[list(other)], ref, other, 'crps')
    full = M.crps(arg, t, alphas=qs, agg_index=agg, collapse_quantile_axis=False)
    check(close(full.values, qscore.values), 'uncollapsed crps is not the quantile score')
    r = M.reliability(arg, t, alphas=qs, agg_index=agg)
    check(close(r.values, rel.values), 'reliability differs from the reliability of the quantile scores')
    rs = M.reliability(arg, t, alphas=qs, agg_index=agg, get_score=True)
    for al in qs:
        check(close(rs[al].values, rel[al].values - al), 'reliability score at level %s is not reliability minus level' % al)
    check(np.array_equal(np.asarray(arg), np.asarray(keep), equal_nan=True) and t.equals(t0), 'scoring changed the tables of the caller')
    tt = np.repeat(t.values[:, :, None], len(qs), axis=2)
    z = M.quantile_scores(tt, t, alphas=qs, agg_index=agg)[0].values.astype(float)
    check((z[~np.isnan(z)] == 0).all(), 'a perfect forecast has a non-zero pinball loss')
    return ['quant', p['form'], p['lab'], axis, len(qs)]


def gen_quant(rng, i, tier):
    d = gen_point(rng, i, tier)
    d['nan'] = False
    d.update(nq=rng.choice([1, 2, 4, 6, 9]), form=rng.choice(['a', 'df', 'q']), tie=rng.random() < .3)
    return d


def run_summary(p):
    g, t, x = tables(p)
    n = p['n']
    idxs = pd.DataFrame({'hour': g.integers(0, 4, n), 'kind': g.choice(['u', 'v'], n)}, index=t.index)
    if p['fl']:
        idxs['temp'] = g.normal(size=n)
    mask = pd.DataFrame(g.uniform(size=t.shape) < .7, index=t.index, columns=t.columns) if p['mask'] else None
    keep = [v.copy() for v in (t, x, idxs)]
    nq = 3
    res = M.summary_scores(x, t, [M.rmse, M.nmae] if not p['mask'] else [M.rmse], idxs, mask=mask, n_quantiles=nq)
    e2 = (x.values - t.values) ** 2
    if mask is not None:
        e2 = np.where(mask.values, e2, np.nan)
    for k in ['hour', 'kind']:
        ref = group_ref(e2, list(idxs[k]), 0, math.sqrt)
        A = res['rmse'].loc[k]
        if p['fl'] and k == 'hour' and A.shape[0] != len(ref):
            continue
        compare(A, ref, t.columns, 'summary of rmse by ' + k)
    if p['fl']:
        # every row falls in one of the quantile classes: the group means average back to the overall squared error
        lab = list(pd.qcut(idxs['temp'], nq, duplicates='drop'))
        ref = group_ref(e2, lab, 0, math.sqrt)
        compare(res['rmse'].loc['temp'], ref, t.columns, 'summary of rmse by temp')
    for a, b, w in zip((t, x, idxs), keep, ('target', 'forecast', 'label')):
        check(a.equals(b) and list(a.columns) == list(b.columns), 'summary_scores changed the %s table of the caller' % w)
    return ['summary', p['fl'], p['mask']]


def gen_summary(rng, i, tier):
    d = gen_point(rng, i, tier)
    d.update(n=rng.choice([12, 25]), s=rng.choice([1, 3]), nan=False, fl=rng.random() < .5, mask=rng.random() < .4)
    return d


class Est:
    def __init__(self, out, qv=None):
        self.out = out
        if qv is not None:
            self.q_vect = qv

    def predict(self, X):
        return self.out

    predict_quantiles = predict


def run_scorer(p):
    g, t, x = tables(dict(p, nan=False))
    e = x.values - t.values
    sc = M.make_scorer(M.rmse)(Est(x.values if p['arr'] else x.copy()), None, t)
    ref = np.mean(np.sqrt(np.mean(e ** 2, axis=1))) if p['n'] != p['s'] else np.mean(np.sqrt(np.mean(e ** 2, axis=0)))
    check(close(sc, ref), 'rmse scorer gives %s, expected %s' % (sc, ref))
    qs = [.1, .5, .8]
    if p['s'] == 3:
        return None
    q = x.values[:, :, None] + np.sort(g.normal(size=(p['n'], p['s'], 3)), axis=2)
    d = t.values[:, :, None] - q
    pin = np.where(d >= 0, np.array(qs) * d, (np.array(qs) - 1) * d)
    for met in [M.crps, partial(M.crps, collapse_quantile_axis=True)]:
        sc = M.make_scorer(met)(Est(q, qs), None, t)
        check(close(sc, pin.mean()), 'crps scorer gives %s, expected %s' % (sc, pin.mean()))
    return ['scorer', p['arr']]


RULE = 'random tables, label kinds, aggregation axes, NaN cells, quantile layouts; distinct = distinct (score family, labels, axis, layout)'
CASES = [Case('point', gen_point, run_point, 60, 800, rule=RULE), Case('quant', gen_quant, run_quant, 60, 800, rule=RULE),
         Case('summary', gen_summary, run_summary, 25, 300, rule=RULE), Case('scorer', gen_point, run_scorer, 25, 300, rule=RULE)]
