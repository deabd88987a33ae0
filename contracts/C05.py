"""C05: residual quantiles and the quantile forecasts built from them, for all tables, horizons, levels and hours."""
from core import *
import frame, arr as A
ASSUMPTIONS = ['real arithmetic instead of floating point', 'np.quantile is a fixed function of the members and the level, non-decreasing in the level (library)',
               'pandas selection by hour and numpy array operations as modelled in pydv/frame.py and pydv/arr.py',
               'the point forecast is a table with the rows of the input and one column per step (contract of predict, used by the quantile forecast)']
F, B, G = 'pyforecaster.forecaster', 'pyforecaster.forecasting_models.benchmarks', 'pyforecaster.forecasting_models.gradientboosters'
FN = 'pyforecaster/forecaster.py: '


def W_res(h, m):
    return [dict(case='residual', params=dict(kind='linear', seed=s, n=n, dt=60, nf=2, ny=2, q=[.1, .5, .9], cond=c, keep_hours=k, val_ratio=None, pick='all', shift=15, flip=True, tz=None))
            for s, n, c, k in ((1, 60, True, None), (2, 60, False, None), (3, 110, True, list(range(23))), (4, 30, True, None))]


def W_pers(h, m):
    return W_res(h, m) + [dict(case='persistence', params=p) for p in PERS]


PERS = []


def hours_of(x):
    """the distinct hours and, per row, which of them it has"""
    u, inv = A.unique(x.index.hour.values, return_inverse=True)
    return u, inv


def pin(terms):
    """the (valid) axioms of these terms, so that they occur in the query"""
    return [f for t in terms for f in sym.AX[t.decl().get_id()](t)]


def in_day(lam, nt, ks):
    """hours are hours"""
    ts = [z3.Select(lam, A.UFST(lam, nt, z3.IntVal(k))) for k in ks]
    return [z3.And(t >= 0, t < 24) for t in ts]


def ordered(lam, nt, idx):
    """(valid) order facts of distinct values at successive indices"""
    u = [A.UNIQ(lam, nt, i) for i in idx]
    return pin(u) + A._uniq_pairs(list(zip(u, u[1:])))


def calibration(h, cond):
    f = h.module(F)
    n, s, q = sint('n', 1), sint('steps', 1), sint('levels', 1)
    e = table('errs', n, cols=s)
    x = table('x', n, index=e.index, cols=['f'])
    levels = symbolic('q', (q,))
    m = f.ScenarioGenerator(q_vect=levels, conditional_to_hour=cond)
    return f, n, s, q, e, x, levels, m


def spec_q(rows, levels, s, q):
    """[step, level]: quantile of that step's residuals over these rows"""
    d = A.quantile(rows, levels, 0)
    r = d.snapshot()
    return Arr((s, q), lambda i, j: r(j, i), 'f')


@contract('residual quantiles, unconditional', [FN + 'ScenarioGenerator._estimate_err_distr'], W_res)
def est_un(h):
    f, n, s, q, e, x, levels, m = calibration(h, False)
    d = m._estimate_err_distr(e, x)
    h.ensure('all residuals of the step', equal_arrays(d, spec_q(e.values, levels, s, q)))


@contract('residual quantiles, all 24 hours observed', [FN + 'ScenarioGenerator._estimate_err_distr'], W_res)
def est_cond(h):
    f, n, s, q, e, x, levels, m = calibration(h, True)
    hrs = x.index.hour.values
    lam, nt, cnt, _ = A.unique_parts(hrs)
    at = [sint('at%d' % k, 0) for k in range(24)]
    for k in range(24):
        h.assume(And(at[k] < n, hrs.read(at[k]) == k))
    ks = [z3.IntVal(k) for k in range(25)]
    hy = pin([A.UPOS(lam, nt, a.t) for a in at]) + ordered(lam, nt, ks) + ordered(lam, nt, [A.UPOS(lam, nt, a.t) for a in at]) + in_day(lam, nt, range(25))
    h.ensure('lemma: 24 different hours', cnt == 24, hyps=hy)
    h.assume(cnt == 24)
    d = m._estimate_err_distr(e, x)
    for k in range(24):
        h.ensure('residuals of hour %d' % k, equal_arrays(d[k], spec_q(e.values[hrs == k], levels, s, q)))


@contract('residual quantiles, an hour never observed', [FN + 'ScenarioGenerator._estimate_err_distr'], W_res)
def est_part(h):
    f, n, s, q, e, x, levels, m = calibration(h, True)
    hrs = x.index.hour.values
    lam, nt, cnt, _ = A.unique_parts(hrs)
    h0 = sint('absent', 0)
    h.assume(h0 < 24)
    h.assume(forall(lambda i: Not(hrs.read(i) == h0), (0, n)))
    p0 = S(A.UFST(lam, nt, h0.t))
    hy = ordered(lam, nt, [z3.IntVal(k) for k in range(24)])  + pin([A.UNIQ(lam, nt, h0.t)]) + in_day(lam, nt, range(24)) + [boolterm(Implies(And(p0 >= 0, p0 < n), Not(hrs.read(p0) == h0)))]
    h.ensure('lemma: not 24 different hours', Not(cnt == 24), hyps=hy)
    h.assume(Not(cnt == 24))
    d = m._estimate_err_distr(e, x)
    for k in range(24):
        h.ensure('every hour gets the quantiles of all residuals (%d)' % k, equal_arrays(d[k], spec_q(e.values, levels, s, q)))


class ByHour:
    """residual quantiles per hour, available for every hour of the day"""
    def __init__(self, h, s, q):
        self.h = h
        self.f = ghost('resid', 'iii', 'r')
        self.s, self.q = s, q

    def __getitem__(self, hr):
        hr = lift(hr)
        inside = And(hr >= 0, hr < 24)
        self.h.ensure('the hours looked up are hours of the day', inside)
        self.h.assume(inside)
        return Arr((self.s, self.q), lambda i, j: self.f(hr, i, j), 'f')


def quantile_forecast(h, module, cls, cond):
    f = h.module(module)
    c = getattr(f, cls)
    n, s, q = sint('n', 0), sint('steps', 1), sint('levels', 1)
    x = table('x', n, index=frame.time_index('t', n, increasing=False), cols=['f'])
    point = table('point', n, index=x.index, cols=s)
    pt = point.values.snapshot()
    h.patch(c, 'predict', lambda self, x, **k: frame.Frame(Arr((n, s), pt, 'f'), x.index, point.columns))
    m = c.__new__(c)
    m.q_vect, m.conditional_to_hour = symbolic('q', (q,)), cond
    if cond:
        m.err_distr = ByHour(h, s, q)
        hrs, inv = x.index.hour.values, hours_of(x)[1]
        off = lambda r, i, j: m.err_distr.f(hrs.read(r), i, j)
        h.loop(module, (cls + '._predict_quantiles', 0), LoopSpec('hours so far', lambda L, k: dict(
            preds=Arr((n, s, q), lambda r, i, j: ite(inv.read(r) < k, pt(r, i) + off(r, i, j), pt(r, i)), 'f'))))
    else:
        m.err_distr = symbolic('resid', (s, q))
        e = m.err_distr.snapshot()
        off = lambda r, i, j: e(i, j)
    out = m._predict_quantiles(x)
    h.ensure('point forecast plus residual quantile of the row\'s hour, the step and the level' if cond else 'point forecast plus residual quantile of the step and the level',
             equal_arrays(out, Arr((n, s, q), lambda r, i, j: pt(r, i) + off(r, i, j), 'f')))


for _mod, _cls, _file in ((F, 'LinearForecaster', 'forecaster.py'), (F, 'LGBForecaster', 'forecaster.py'), (G, 'LGBMHybrid', 'forecasting_models/gradientboosters.py'), (B, 'Persistent', 'forecasting_models/benchmarks.py'), (B, 'SeasonalPersistent', 'forecasting_models/benchmarks.py')):
    for _c in (True, False):
        contract('%s quantiles, %s' % (_cls, 'by hour' if _c else 'unconditional'), ['pyforecaster/%s: %s._predict_quantiles' % (_file, _cls)], W_pers)(
            lambda h, mod=_mod, cls=_cls, c=_c: quantile_forecast(h, mod, cls, c))
