"""C03: time cross-validation folds, for all time indexes, look-backs and numbers of folds."""
from core import *
import frame, arr as A
import types
ASSUMPTIONS = ['times are integers (nanoseconds); date_range(start, end, n) is start + (end - start) * i // (n - 1)', 'pandas and numpy operations as modelled in pydv/frame.py and pydv/arr.py',
               'a longest look-back that exceeds the test window is refused with an error']
F = 'pyforecaster.formatter'
FN = ['pyforecaster/formatter.py: Formatter.time_kfcv']


def W_folds(h, m):
    c = [dict(names=['a'], functions=['mean'], agg_freq=2, lags=[1, 3], relative_lags=False, agg_bins=None)]
    return [dict(case='folds', params=dict(seed=s, n=n, dt=60, regular=r, tz=None, k=k, mf=mf, prefit=True, cfgs=c)) for s, n, r, k, mf in ((1, 60, True, 4, 1), (2, 80, False, 3, 2), (3, 40, True, 2, 1), (4, 70, True, 5, 1))]


def setup(h, k, mf):
    f = h.module(F)
    n = sint('rows', 2)
    ix = frame.time_index('t', n)
    a, b = sint('features', 1), sint('more_features', 1)
    sa, sb = symbolic('start_a', (a,), 'i'), symbolic('start_b', (b,), 'i')
    fm = f.Formatter(n_parallel=1)
    mk = lambda s, z: types.SimpleNamespace(metadata=frame.Frame([s], frame.range_index(z), frame.pd.Index(['start_time'])))
    fm.transformers = [mk(sa, a), mk(sb, b)]
    D = sint('look_back', 0)
    h.assume(forall(lambda i: abs(lift(sa.read(i))) <= D, (0, a)))
    h.assume(forall(lambda i: abs(lift(sb.read(i))) <= D, (0, b)))
    p, q = sint('p', 0), sint('q', 0)
    h.assume(Or(And(p < a, abs(lift(sa.read(p))) == D), And(q < b, abs(lift(sb.read(q))) == D)))
    first, last = ix.key(0), ix.key(n - 1)
    W = (last - first) // (lift(k) - 1)
    return f, fm, n, ix, D, first, last, W


def fold(h, ix, n, first, last, W, D, m, i, tr, te):
    lo = first + (last - W - first) * lift(i) // (lift(m) - 1)
    hi = lo + W
    t = lambda r: ix.key(r)
    h.ensure('test rows are the rows inside the window', forall(lambda r: lift(te.read(r)) == And(t(r) >= lo, t(r) <= hi), (0, n)))
    h.ensure('training rows are the rows farther from the window than the longest look-back', forall(lambda r: lift(tr.read(r)) == Or(t(r) < lo - D, t(r) > hi + D), (0, n)))
    h.ensure('no row in both', forall(lambda r: Not(And(tr.read(r), te.read(r))), (0, n)))
    h.ensure('masks over all rows', And(lift(tr.shape[0]) == n, lift(te.shape[0]) == n))


@contract('every fold, all numbers of folds', FN, W_folds)
def folds(h):
    k, mf = sint('n_k', 2), sint('factor', 1)
    f, fm, n, ix, D, first, last, W = setup(h, k, mf)
    h.assume(D <= W)
    m = norm(k * mf)
    h.loop(F, ('Formatter.time_kfcv', 0), LoopSpec('folds', lambda L, i: setattr(h, 'fold', i) or {}, local=('i', 't_i')))
    h.fold = None
    for tr, te in fm.time_kfcv(ix, k, mf):
        fold(h, ix, n, first, last, W, D, m, h.fold, tr, te)


def enumerated(h, k, mf):
    f, fm, n, ix, D, first, last, W = setup(h, k, mf)
    h.assume(D <= W)
    got = list(fm.time_kfcv(ix, k, mf))
    m = k * mf
    h.ensure('number of folds', len(got) == m)
    for i, (tr, te) in enumerate(got):
        fold(h, ix, n, first, last, W, D, m, i, tr, te)
    h.ensure('the test windows cover all rows', forall(lambda r: Or(*[te.read(r) for _, te in got]), (0, n)))


for _k, _m in ((2, 1), (3, 1), (4, 1), (5, 1), (3, 2), (2, 3)):
    contract('%d folds times %d: the test windows cover the index' % (_k, _m), FN, W_folds, unbounded=False)(lambda h, k=_k, m=_m: enumerated(h, k, m))


@contract('a look-back longer than the test window is refused', FN, W_folds)
def refused(h):
    k, mf = sint('n_k', 2), sint('factor', 1)
    f, fm, n, ix, D, first, last, W = setup(h, k, mf)
    h.assume(D > W)
    h.loop(F, ('Formatter.time_kfcv', 0), LoopSpec('folds', lambda L, i: {}, local=('i', 't_i')))
    h.ensure('refused before the first fold', h.raises(RuntimeError, lambda: next(iter(fm.time_kfcv(ix, k, mf)))))
