"""C17: scores equal their definitions on the cells their labels group, for all tables, label vectors and both axes."""
from core import *
import frame, arr as A
ASSUMPTIONS = ['real arithmetic instead of floating point', 'cells without missing values', 'labels are represented by integers (their order is all that matters)',
               'pandas groupby/mean and numpy operations as modelled in pydv/frame.py and pydv/arr.py']
M = 'pyforecaster.metrics'
FN = 'pyforecaster/metrics.py: '


def W_point(h, m):
    return [dict(case='point', params=dict(seed=s, n=n, s=k, idx='t', cols='s', nan=False, scale=1., off=o, noise=.5, lab=l, arr=True, axis=a, relabel=False))
            for s, n, k, o, l, a in ((1, 9, 3, 2., 'int', 0), (2, 9, 3, 2., 'int', 1), (3, 8, 4, 0., 'none', 0), (4, 3, 8, 0., 'int', 1))]


def W_quant(h, m):
    return [dict(w, case='quant', params=dict(w['params'], nq=q, form=f, tie=t)) for w in W_point(h, m) for q, f, t in ((4, 'a', True), (2, 'df', False), (6, 'q', True))]


def tables(h, axis):
    n, s = sint('n', 1), sint('steps', 1)
    x = table('x', n, cols=s)
    t = frame.Frame(symbolic('t', (n, s)), x.index, x.columns)
    k = n if axis == 0 else s
    if axis == 1:
        h.assume(Not(n == s))
    lab = symbolic('label', (k,), 'i')
    return n, s, x, t, lab


def grouped(lab, axis, n, s, cell, post=lambda v: v):
    """[group, the other axis]: post(mean of the cells whose label is the group's)"""
    u = A.unique(lab)
    ls, us = lab.snapshot(), u.snapshot()
    k, m = (n, s) if axis == 0 else (s, n)
    c = (lambda r, j: cell(r, j)) if axis == 0 else (lambda r, j: cell(j, r))
    return u, Arr((u.shape[0], m), lambda g, j: post(lift(A.reduce_1('mean', k, lambda r: c(r, j), member=lambda r: lift(ls(r)) == lift(us(g))))), 'f')


def check(h, f, name, axis, cell_of, post=lambda v: v, **kw):
    n, s, x, t, lab = tables(h, axis)
    xs, ts = x.values.snapshot(), t.values.snapshot()
    cell = cell_of(xs, ts, n, s)
    res = getattr(f, name)(x, t, agg_index=lab, **kw)
    u, want = grouped(lab, axis, n, s, cell, post)
    h.ensure('mean over exactly the labelled cells', equal_arrays(res.values, want))
    h.ensure('one row per distinct label', equal_arrays(res.index.values, u))
    h.ensure('tables unchanged', And(equal_arrays(x.values, Arr((n, s), xs, 'f')), equal_arrays(t.values, Arr((n, s), ts, 'f'))))
    return res


def sq(xs, ts, n, s):
    return lambda r, j: (lift(xs(r, j)) - ts(r, j)) * (lift(xs(r, j)) - ts(r, j))


def rel(xs, ts, n, s):
    return lambda r, j: abs((lift(xs(r, j)) - ts(r, j)) / (abs(lift(ts(r, j))) + 1e-5))


def size(ts, s):
    """[row] mean absolute target"""
    return lambda r: lift(A.reduce_1('mean', s, lambda c: abs(lift(ts(r, c)))))


def norm_by_row(xs, ts, n, s):
    z = size(ts, s)
    return lambda r, j: abs((lift(xs(r, j)) - ts(r, j)) / (z(r) + 1e-12))


def norm_by_row_and_level(xs, ts, n, s):
    z = size(ts, s)
    med = A.quantile(Arr((n,), z, 'f'), 0.5, 0)
    med = lift(med.read() if isinstance(med, Arr) else med)
    return lambda r, j: abs((lift(xs(r, j)) - ts(r, j)) / (z(r) + (med * 0.01 + 1e-12)))


for _ax in (0, 1):
    _t = 'rows' if _ax == 0 else 'steps'
    contract('root mean squared error over %s' % _t, [FN + 'rmse, squerr, err, chose_axis'], W_point)(
        lambda h, a=_ax: check(h, h.module(M), 'rmse', a, sq, lambda v: sym.sqrt(v)))
    contract('mean relative error over %s' % _t, [FN + 'mape'], W_point)(lambda h, a=_ax: check(h, h.module(M), 'mape', a, rel))
    contract('normalised mean absolute error over %s' % _t, [FN + 'nmae'], W_point)(
        lambda h, a=_ax: check(h, h.module(M), 'nmae', a, norm_by_row, inter_normalization=False))
    contract('normalised mean absolute error with offset over %s' % _t, [FN + 'nmae'], W_point)(lambda h, a=_ax: check(h, h.module(M), 'nmae', a, norm_by_row_and_level))


def quants(h, axis, levels, form):
    n, s, x, t, lab = tables(h, axis)
    nq = len(levels)
    h.assume(Not(s == nq))
    q = symbolic('q_hat', (n, s, nq) if form == 'last' else (n, nq, s))
    qs, ts = q.snapshot(), t.values.snapshot()
    at = (lambda r, j, a: lift(qs(r, j, a))) if form == 'last' else (lambda r, j, a: lift(qs(r, a, j)))
    score, rel = h.module(M).quantile_scores(q, t, alphas=list(levels), agg_index=lab)
    for a, al in enumerate(levels):
        gap = lambda r, j, a=a: at(r, j, a) - ts(r, j)
        pin = lambda r, j, al=al, a=a: ite(gap(r, j) > 0, gap(r, j) * (1 - al), -gap(r, j) * al)
        ind = lambda r, j, a=a: ite(gap(r, j) > 0, 1., 0.)
        u, want = grouped(lab, axis, n, s, pin)
        h.ensure('pinball loss of level %g' % al, equal_arrays(score[al].values, want))
        u, want = grouped(lab, axis, n, s, ind)
        h.ensure('share of observations below level %g' % al, equal_arrays(rel[al].values, want))
    h.ensure('inputs unchanged', And(equal_arrays(t.values, Arr((n, s), ts, 'f')), equal_arrays(q, Arr(q.shape, qs, 'f'))))


for _ax in (0, 1):
    for _f in ('last', 'middle'):
        contract('pinball loss and reliability over %s, levels on the %s axis' % ('rows' if _ax == 0 else 'steps', _f), [FN + 'quantile_scores'], W_quant, unbounded=False)(
            lambda h, a=_ax, f=_f: quants(h, a, (.125, .5, .875), f))


def mean_of_losses(h, axis):
    n, k = sint('n', 3), 2
    x = table('x', n, cols=['u', 'v'])
    t = frame.Frame([symbolic('t%d' % j, (n,)) for j in range(k)], x.index, x.columns)
    levels = (.125, .5, .875)
    q = symbolic('q_hat', (n, k, len(levels)))
    lab = symbolic('label', (n if axis == 0 else k,), 'i')
    f = h.module(M)
    score, rel = f.quantile_scores(q, t, alphas=list(levels), agg_index=lab)
    c = f.crps(q, t, alphas=list(levels), agg_index=lab)
    for col in ('u', 'v'):
        want = score[levels[0]][col].values
        for al in levels[1:]:
            want = want + score[al][col].values
        h.ensure('continuous ranked score of %s is the mean of the pinball losses' % col, equal_arrays(c[col].values, want / len(levels)))
    r = f.reliability(q, t, alphas=list(levels), agg_index=lab)
    g = f.reliability(q, t, alphas=list(levels), agg_index=lab, get_score=True)
    for al in levels:
        h.ensure('reliability of level %g' % al, equal_arrays(r[al].values, rel[al].values))
        h.ensure('reliability score of level %g' % al, equal_arrays(g[al].values, rel[al].values - al))


contract('continuous ranked score and reliability', [FN + 'crps, reliability, quantile_scores'], W_quant, unbounded=False)(lambda h: mean_of_losses(h, 0))


@contract('a perfect forecast scores zero, others are never negative', [FN + 'rmse, mape, nmae, quantile_scores'], W_point)
def perfect(h):
    f = h.module(M)
    n, s, x, t, lab = tables(h, 0)
    r = f.mape(x, t, agg_index=lab).values
    h.ensure('mape is not negative', forall(lambda g, j: lift(r.read(g, j)) >= 0, (0, r.shape[0]), (0, r.shape[1])))
    for name in ('rmse', 'mape'):
        z = getattr(f, name)(t, t, agg_index=lab).values
        h.ensure('%s of a perfect forecast is zero' % name, forall(lambda g, j: lift(z.read(g, j)) == 0, (0, z.shape[0]), (0, z.shape[1])))
    score, rel = f.quantile_scores(Arr((n, s, 1), lambda i, j, k: t.values.read(i, j), 'f'), t, alphas=[.125], agg_index=lab)
    z = score[.125].values
    h.ensure('pinball loss of a perfect forecast is zero', forall(lambda g, j: lift(z.read(g, j)) == 0, (0, z.shape[0]), (0, z.shape[1])))
