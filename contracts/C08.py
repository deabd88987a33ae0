"""C08: train/validation split and sliding windows, for all lengths, fractions, widths, window lengths and generators."""
from core import *
import frame
ASSUMPTIONS = ['real arithmetic instead of floating point (the number of validation rows is the truncated product n * fraction)', 'pandas positional slicing as modelled in pydv/frame.py', 'numpy array operations as modelled in pydv/arr.py']
F, HW, B = 'pyforecaster.forecaster', 'pyforecaster.forecasting_models.holtwinters', 'pyforecaster.forecasting_models.benchmarks'


def W_split(h, m):
    return [dict(case='split', params=dict(n=n, ratio=r, index='time')) for n, r in ((7, .3), (10, .25), (33, .9), (4, .5), (1, .2))]


def split_pre(h, given=True):
    n, cx, cy = sint('n', 0), sint('cx', 1), sint('cy', 1)
    x = table('x', n, cols=cx)
    y = table('y', n, index=x.index, cols=cy)
    r = sreal('ratio')
    if given:
        h.assume(And(r >= 0, r <= 1))
    return n, x, y, r


@contract('split with a fraction', ['pyforecaster/forecaster.py: ScenarioGenerator.train_val_split'], W_split)
def split(h):
    f = h.module(F)
    n, x, y, r = split_pre(h)
    m = f.ScenarioGenerator(val_ratio=r)
    xt, yt, xv, yv = m.train_val_split(x, y)
    k = norm(xt.shape[0])
    for nm, p, w in (('features', xt, x), ('targets', yt, y)):
        h.ensure('training %s are the first rows' % nm, same_rows(p, w, 0, k))
    for nm, p, w in (('features', xv, x), ('targets', yv, y)):
        h.ensure('validation %s are all the remaining rows' % nm, same_rows(p, w, k, n))
    nv = lift(n) - k
    h.ensure('the validation part is the asked fraction, rounded down', And(nv <= n * r, nv > n * r - 1))


@contract('split without a fraction', ['pyforecaster/forecaster.py: ScenarioGenerator.train_val_split'], W_split)
def nosplit(h):
    f = h.module(F)
    n, x, y, r = split_pre(h)
    m = f.ScenarioGenerator(val_ratio=None)
    xt, yt, xv, yv = m.train_val_split(x, y)
    for nm, p, w in (('training features', xt, x), ('training targets', yt, y), ('validation features', xv, x), ('validation targets', yv, y)):
        h.ensure('%s are all rows' % nm, same_rows(p, w, 0, n))


def windows(v, w):
    """row i: w(j) added to i"""
    return lambda i, j: v(lift(i) + w(j))


def W_hankel(h, m):
    return [dict(case='hankel', params=dict(seed=1, n=n, w=w, gen=g, col=c)) for n, w, g, c in ((7, 3, None, False), (7, 3, [0, 2], True), (5, 5, None, True), (6, 1, [0], False), (9, 4, [3, 1, 1], False))]


@contract('windows of all offsets', ['pyforecaster/forecasting_models/holtwinters.py: hankel'], W_hankel)
def hank(h):
    hw = h.module(HW)
    n, w = sint('len', 1), sint('w', 1)
    h.assume(w <= n)
    x = symbolic('x', (n,))
    sn = x.snapshot()
    m = norm(lift(n) - w + 1)
    h.loop(HW, ('hankel', 0), LoopSpec('columns so far', lambda L, i: dict(h=SList(i, lambda k: Arr((m, 1), lambda r, c: sn(lift(r) + k), 'f')))))
    out = hw.hankel(x, w)
    h.ensure('row i, column j is the sample at i + j', equal_arrays(out, Arr((m, w), lambda i, j: sn(lift(i) + j), 'f')))
    h.ensure('the series is unchanged', equal_arrays(x, Arr((n,), sn, 'f')))


@contract('windows of chosen offsets', ['pyforecaster/forecasting_models/holtwinters.py: hankel'], W_hankel)
def hank_gen(h):
    hw = h.module(HW)
    n, w, q = sint('len', 1), sint('w', 1), sint('q', 1)
    h.assume(w <= n)
    x = symbolic('x', (n, 1))
    sn = x.snapshot()
    g = symbolic('g', (q,), 'i')
    gs = g.snapshot()
    h.assume(forall(lambda k: And(g.read(k) >= 0, g.read(k) < w), (0, q)))
    m = norm(lift(n) - w + 1)
    h.loop(HW, ('hankel', 0), LoopSpec('columns so far', lambda L, i: dict(h=SList(i, lambda k: Arr((m, 1), lambda r, c: sn(lift(r) + gs(k), 0), 'f')))))
    out = hw.hankel(x, w, g)
    h.ensure('row i, column j is the sample at i + g_j', equal_arrays(out, Arr((m, q), lambda i, j: sn(lift(i) + gs(j), 0), 'f')))


class Model:
    """a library regressor: what it is trained on is recorded, what it predicts is arbitrary but a function of the row"""
    def __init__(self, cy):
        self.seen, self.cy = [], cy
        self.f = ghost('model', 'ii', 'r')

    def fit(self, x, y):
        self.seen.append((x, y))
        return self


@contract('linear forecaster trains on the first rows and calibrates on the rest', ['pyforecaster/forecaster.py: LinearForecaster.fit, ScenarioGenerator.train_val_split, encode_categorical'], W_split)
def linear(h):
    f = h.module(F)
    n, cy = sint('n', 0), sint('cy', 1)
    x = table('x', n, cols=['a', 'b'])
    y = table('y', n, index=x.index, cols=cy)
    r = sreal('ratio')
    h.assume(And(r >= 0, r <= 1))
    reg = Model(cy)
    h.patch(f, 'LinearRegression', lambda *a, **k: reg)
    cal = []
    h.patch(f.ScenarioGenerator, 'fit', lambda self, x, y: cal.append((x, y)))
    m = f.LinearForecaster(val_ratio=r)
    m.fit(x, y)
    h.ensure('one model is trained', len(reg.seen) == 1)
    h.ensure('one calibration', len(cal) == 1)
    (xt, yt), (xv, yv) = reg.seen[0], cal[0]
    k = norm(xt.shape[0])
    h.ensure('trained on the first rows', And(same_rows(xt, x, 0, k), same_rows(yt, y, 0, k)))
    h.ensure('calibrated on the remaining rows', And(same_rows(xv, x, k, n), same_rows(yv, y, k, n)))
    h.ensure('split at the fraction', And(lift(n) - k <= n * r, lift(n) - k > n * r - 1))


@contract('persistence calibrates each row with the samples that follow it', ['pyforecaster/forecasting_models/benchmarks.py: Persistent.fit', 'pyforecaster/forecasting_models/holtwinters.py: hankel'],
          lambda h, m: [dict(case='use', params=dict(kind='persistent', seed=5, n=60, dt=60, nf=2, ny=k, q=[.1, .5, .9], ratio=.5)) for k in (1, 2, 4)])
def persistent(h):
    b = h.module(B)
    n, s = sint('n', 0), sint('n_sa', 1)
    x = table('x', n, cols=['load', 'other'])
    r = sreal('ratio')
    h.assume(And(r >= 0, r <= 1))
    base = b.ScenarioGenerator
    cal = []
    h.patch(base, 'fit', lambda self, x, y: cal.append((x, y)))
    col = x.cl[0].snapshot()
    nv = norm(trunc(n * r))
    h.assume(lift(nv) > s + 1)
    first = norm(lift(n) - nv)
    m = norm(lift(nv) - s)
    h.loop(HW, ('hankel', 0), LoopSpec('columns so far', lambda L, i: dict(h=SList(i, lambda k: Arr((m, 1), lambda rr, c: col(first + 1 + lift(rr) + k), 'f')))))
    fc = b.Persistent('load', n_sa=s, val_ratio=r)
    fc.fit(x)
    h.ensure('one calibration', len(cal) == 1)
    xv, yv = cal[0]
    h.ensure('features are the validation rows with a complete window', same_rows(xv, x, first, lift(n) - s))
    h.ensure('target k of a row is the sample k+1 rows later', equal_arrays(yv.values, Arr((m, s), lambda i, k: col(first + lift(i) + k + 1), 'f')))
    h.ensure('targets carry the labels of their rows', yv.index.equal(xv.index))
