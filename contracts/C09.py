"""C09: online forecasters use no later sample, keep the last samples, and answer requests without changing themselves."""
from core import *
from core import _fn
import types
import frame, pandas as pd, numpy as np
import arr as A
from load import SList, LoopSpec
from sym import PathEnd
ASSUMPTIONS = ['real arithmetic instead of floating point', 'copy.deepcopy gives an equal, independent copy of the stored states', 'numpy array operations as modelled in pydv/arr.py']
FA = 'pyforecaster.forecasting_models.fast_adaptive_models'
P = 'pyforecaster/forecasting_models/fast_adaptive_models.py: '


def params(kind, k):
    """forecast requests on the real code, long and short against the memory"""
    out = []
    for m, per, nsa, nfit, n in ((6, 3, 2, 40, 60), (4, 4, 1, 5, 30), (12, 6, 3, 40, 90), (6, 4, 3, 31, 45)):
        for cut in (0, 3, 17):
            out.append(dict(kind=kind, seed=k + cut, n=n, n_fit=max(nfit, 30) if kind in ('hw', 'hwm', 'seas', 'pers') else nfit, m=m, per=per, n_sa=nsa, alpha=.5, omega=.9, nh=1 + cut % 2, cut=cut, cuts=[cut, cut + 4], beta=.05 if k else 0, cov=kind == 'hw' and cut == 3))
            if out[-1]['n'] < out[-1]['n_fit'] + 8:
                out[-1]['n'] = out[-1]['n_fit'] + 15
    return out


def use(kind):
    return lambda h, m: [dict(case=c, params=p) for p in params(kind, 1) for c in ('causal', 'state')]


def W_memory(h, m):
    return [dict(case='memory', params=dict(seed=1, m=a, ny=b)) for a in (1, 2, 5) for b in (1, 3, 9)]


def recent(y, w0, m, i):
    """the last m samples of old memory followed by the samples up to and including i"""
    sy, sw = y.snapshot(), w0.snapshot()
    i = lift(i)

    def fn(j):
        p = lift(j) + i + 1 - m
        return ite(p >= 0, sy(norm(p)), sw(norm(p + m)))
    return A.Arr((m,), fn, 'f')


def history(h, get):
    f = h.module(FA)
    n, m = sint('samples', 1), sint('memory', 1)
    y, w = symbolic('y', (n,)), symbolic('w', (m,))
    i = sint('i', 0)
    h.assume(i < n)
    keep = w.copy(), y.copy()
    start = A.smax(lift(0), i - m + 1)
    r = get(f)(y, w, start, i)
    h.ensure('the last samples of old memory followed by the new ones', equal_arrays(r, recent(keep[1], keep[0], m, i)))
    h.ensure('the memory and the series passed in are unchanged', And(equal_arrays(w, keep[0]), equal_arrays(y, keep[1])))


contract('recent history', [P + 'generate_recent_history'], W_memory)(lambda h: history(h, lambda f: f.generate_recent_history))
contract('recent history of a forecaster', [P + 'StatefulForecaster.generate_recent_history'], W_memory)(lambda h: history(h, lambda f: f.StatefulForecaster.generate_recent_history))


# ---------------------------------------------------------------- two runs on series with a common past
def plain(v):
    return v.scalar() if isinstance(v, A.Arr) and v.ndim == 0 else v


class Twin(LoopSpec):
    """run 1: the trace of the states (ghosts, by definition what the code computes); run 2: the same states as long as the
    samples are the same. `make(L, i, who)` gives the states at the start of iteration i as {variable: (kind, ...)}"""
    def __init__(self, h, t, states, explicit, row, local=(), off=1, hist=None):
        LoopSpec.__init__(self, 'states agree while the samples do', self.values, local)
        self.h, self.t, self.states, self.explicit, self.row = h, t, states, explicit, row
        self.run, self.off, self.hist = 1, off, hist
        self.ghosts, self.step1, self.i1 = {}, None, None

    def ghost(self, run, k, nd):
        if (run, k) not in self.ghosts:
            self.ghosts[run, k] = ghost('%s_%d' % (k, run), 'i' * (nd + 1), 'r')
        return self.ghosts[run, k]

    def at(self, k, shape, i, run):
        g1 = self.ghost(1, k, len(shape))
        g2 = self.ghost(2, k, len(shape))
        i = lift(i)
        if run == 1:
            fn = lambda *j: g1(i, *j)
        else:
            fn = lambda *j: ite(i <= self.t + 1, g1(i, *j), g2(i, *j))
        return A.Arr(tuple(shape), fn, 'f') if len(shape) else fn()

    def rows(self, i, run):
        """the first entry of the list is dropped by the caller"""
        i = lift(i)
        return SList(norm(i + self.off), lambda k: self.at('row', (self.row,), lift(k) + (1 - self.off), run))

    def columns(self, i, run):
        """what earlier iterations have written: column c by iteration c"""
        K, n, old = self.hist
        i, o = lift(i), old(run)
        g1, g2 = self.ghost(1, 'column', 1), self.ghost(2, 'column', 1)
        return A.Arr((K, n(run)), lambda k, c: ite(lift(c) < i, g1(lift(c), k) if run == 1 else ite(lift(c) <= self.t, g1(lift(c), k), g2(lift(c), k)), o(k, c)), 'f')

    def values(self, L, i):
        run = self.run
        if L.i is not None and i is L.i and L.i is not L.n:
            # inside an iteration
            if run == 1:
                self.i1 = i
            else:
                if self.i1 is None:
                    raise PathEnd()
                self.h.assume(And(i == self.i1, i <= self.t))
        d = {k: self.at(k, s, i, run) for k, s in self.states.items()}
        d['preds'] = self.rows(i, run)
        if self.hist:
            d['coeffs_t_history'] = self.columns(i, run)
        d.update({k: fn(L, i, run) for k, fn in self.explicit.items()})
        return d

    def check(self, L, i, cur):
        run, goals = self.run, []
        cur = {k: plain(v) for k, v in cur.items()}
        entry = isinstance(i, int) and i == 0
        for k, fn in self.explicit.items():
            if not entry:
                goals.append((k, same_value(cur[k], fn(L, i, run))))
        if entry:
            if run == 1:
                self.entry1 = {k: cur[k] for k in self.states}
                for k, s in self.states.items():
                    self.h.assume(same_value(cur[k], self.at(k, s, 0, 1)))
            else:
                for k, s in self.states.items():
                    goals.append(('same %s at the start' % k, same_value(cur[k], self.at(k, s, 0, 1))))
            goals.append(('no forecast yet', lift(len(cur['preds']) == self.off if isinstance(cur['preds'], list) else cur['preds'].n == self.off)))
            if self.hist:
                goals.append(('nothing written yet', equal_arrays(cur['coeffs_t_history'], self.columns(0, run))))
            return goals
        off = self.off
        last = cur['preds'].fn(i + (off - 1))
        goals.append(('one forecast per sample', lift(cur['preds'].n) == i + off))
        if self.hist:
            K, n, _ = self.hist
            new, old = as_arr(cur['coeffs_t_history']), self.columns(L.i, run)
            goals.append(('earlier columns are kept', And(lift(new.shape[1]) == n(run), forall(lambda k, c: Implies(Not(c == L.i), same(new.read(k, c), old.read(k, c))), (0, K), (0, n(run))))))
            col = A.Arr((K,), (lambda sn: lambda k: sn(k, L.i))(new.snapshot()), 'f')
            if run == 1:
                self.col1 = col
            else:
                goals.append(('same column after a common sample', equal_arrays(col, self.col1)))
        j = L.i
        goals.append(('earlier forecasts are kept', forall(lambda k, c: Implies(k >= off, same(as_arr(cur['preds'].fn(k)).read(c), self.at('row', (self.row,), k + (1 - off), run).read(c))), (0, i + (off - 1)), (0, self.row))))
        if run == 1:
            self.step1 = {k: cur[k] for k in self.states}, as_arr(last)
        else:
            s1, r1 = self.step1
            for k in self.states:
                goals.append(('same %s after a common sample' % k, same_value(cur[k], s1[k])))
            goals.append(('same forecast after a common sample', equal_arrays(last, r1)))
        return goals


def common(h):
    """two series of different lengths with the samples up to t in common"""
    n1, n2, t = sint('samples', 1), sint('samples2', 1), sint('t', 0)
    h.assume(And(t < n1, t < n2))
    past, f1, f2 = (ghost(k, 'i', 'r') for k in ('past', 'rest1', 'rest2'))
    y1 = A.Arr((n1,), lambda i: ite(lift(i) <= t, past(lift(i)), f1(lift(i))), 'f')
    y2 = A.Arr((n2,), lambda i: ite(lift(i) <= t, past(lift(i)), f2(lift(i))), 'f')
    return n1, n2, t, y1, y2


def dup(v):
    if isinstance(v, dict):
        return {k: dup(x) for k, x in v.items()}
    return v.copy() if isinstance(v, (A.Arr, np.ndarray)) else v


def same_states(h, a, b, tag):
    a, b = {k: plain(v) for k, v in a.items()}, {k: plain(v) for k, v in b.items()}
    h.ensure('%s: same fields' % tag, lift(sorted(a) == sorted(b)))
    for k in a:
        h.ensure('%s: %s' % (tag, k), same_value(a[k], b[k]) if not (a[k] is None or b[k] is None) else lift(a[k] is None and b[k] is None))


def fourier(h, fresh, fit):
    f = h.module(FA)
    f.deepcopy = dup
    n1, n2, t, y1, y2 = common(h)
    m, nsa, per, nh = sint('memory', 1), sint('steps', 1), sint('periodicity', 1), sint('harmonics', 1)
    K = norm(nh * 2 + 1)
    h.assume(per <= m)
    basis = symbolic('basis', (norm(m * 2 + A.smax(nsa, per)), K))
    st = {'x': None if fresh else symbolic('x0', (K,)), 'w': symbolic('w0', (m,)), 'eps': sreal('eps0'), 'last_1sa_preds': sreal('last0')}
    w0 = st['w'].copy()
    al, om = sreal('alpha'), sreal('omega')
    ys = {1: y1, 2: y2}
    T = Twin(h, t, {'x': (K,), 'eps': (), 'last_1sa_preds': ()}, {'w': lambda L, i, run: recent(ys[run], w0, m, lift(i) - 1)}, nsa, local=('coeffs_t_history',))
    h.loop(FA, ('Fourier_es.run', 0), T)
    out = {}
    for run in (1, 2):
        T.run = run
        c = f.Fourier_es.__new__(f.Fourier_es)
        c.states = dup(st)
        c.m, c.n_sa, c.periodicity, c.n_harmonics_int, c.alpha, c.omega, c.P_future = m, nsa, per, nh, al, om, basis.copy()
        try:
            out[run] = as_arr(c.run(None, ys[run], fit=fit))
        except PathEnd:
            if run == 2:
                raise
            continue
        if T.i1 is not None:
            continue
        if fit:
            h.ensure('memory after run %d' % run, equal_arrays(c.states['w'], recent(ys[run], w0, m, lift(ys[run].shape[0]) - 1)))
        else:
            same_states(h, c.states, st, 'a forecast leaves the states alone')
        h.ensure('the basis is left alone', equal_arrays(c.P_future, basis))
    if 1 not in out or 2 not in out:
        raise PathEnd()
    h.ensure('one row per sample', And(lift(out[1].shape[0]) == n1, lift(out[2].shape[0]) == n2, lift(out[1].shape[1]) == nsa))
    h.ensure('a forecast depends on no later sample', forall(lambda i, j: Implies(i <= t, same(out[1].read(i, j), out[2].read(i, j))), (0, n1), (0, nsa)))


for _fresh in (True, False):
    for _fit in (True, False):
        contract('adaptive Fourier, %s, %s' % ('first use' if _fresh else 'with memory', 'fit' if _fit else 'forecast'), [P + 'Fourier_es.run'], use('fes'))(lambda h, a=_fresh, b=_fit: fourier(h, a, b))


class Same:
    """an external function: equal arguments, equal results; the second run has to call it with the arguments of the first"""
    def __init__(self, h, name, shapes, T):
        self.h, self.name, self.shapes, self.T, self.calls, self.k, self.last = h, name, shapes, T, [], 0, 1

    def __call__(self, *a):
        a = [as_arr(v).copy() for v in a]
        if self.T.run != self.last:
            self.last, self.k = self.T.run, 0
        if self.T.run == 1:
            out = tuple(symbolic('%s%d' % (self.name, i), s(a)) for i, s in enumerate(self.shapes))
            self.calls.append((a, out))
        else:
            if self.k >= len(self.calls):
                raise Unsupported('%s is called in one run only' % self.name)
            b, out = self.calls[self.k]
            self.k += 1
            self.h.ensure('%s: same arguments after a common sample' % self.name, And(*[equal_arrays(x, y) for x, y in zip(a, b)]))
        return tuple(o.copy() for o in out) if len(out) > 1 else out[0].copy()


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


def kalman_fourier(h, fresh, fit):
    f = h.module(FA)
    f.deepcopy = dup
    n1, n2, t, y1, y2 = common(h)
    m, nsa, per, nh = sint('memory', 1), sint('steps', 1), sint('periodicity', 1), sint('harmonics', 1)
    K = norm(nh * 2 + 1)
    h.assume(per <= m)
    basis = symbolic('basis', (norm(m * 2 + A.smax(nsa, per)), K))
    st = {'x': symbolic('x0', (K,)), 'P': symbolic('P0', (K, K)), 'R': symbolic('R0', (K, K)), 'Q': symbolic('Q0', (K, K)), 'w': symbolic('w0', (m,)), 'eps': None if fresh else sreal('eps0'), 'last_1sa_preds': sreal('last0')}
    F, H_ = symbolic('F', (K, K)), symbolic('H', (K, K))
    old = [] if fresh else symbolic('history', (sint('earlier', 1), K))
    n0 = lift(0) if fresh else lift(old.shape[0])
    oldf = (lambda k, c: lift(0.)) if fresh else (lambda sn: lambda k, c: ite(lift(c) < n0, sn(c, k), 0.))(old.snapshot())
    w0, om, ys = st['w'].copy(), sreal('omega'), {1: y1, 2: y2}
    T = Twin(h, t, {'x': (K,), 'P': (K, K), 'Q': (K, K), 'R': (K, K), 'eps': (), 'last_1sa_preds': ()}, {'w': lambda L, i, run: recent(ys[run], w0, m, lift(i) - 1)}, nsa, off=0,
             hist=(K, lambda run: norm(lift(ys[run].shape[0]) + n0), lambda run: oldf))
    h.loop(FA, ('update_predictions', 0), T)
    f.kalman = Same(h, 'kalman', [lambda a: (K,), lambda a: (K, K)], T)
    f.np = NPWith(f.np, corrcoef=Same(h, 'corrcoef', [lambda a: (K, K)], T))
    out = {}
    for run in (1, 2):
        T.run = run
        c = f.FK.__new__(f.FK)
        c.states = dup(st)
        c.m, c.n_sa, c.periodicity, c.n_harmonics_int, c.omega, c.P_future, c.F, c.H = m, nsa, per, nh, om, basis.copy(), F.copy(), H_.copy()
        c.coeffs_t_history = [] if fresh else old.copy()
        try:
            out[run] = as_arr(c.run(None, ys[run], fit=fit))
        except PathEnd:
            if run == 2:
                raise
            continue
        if T.i1 is not None:
            continue
        if fit:
            h.ensure('memory after run %d' % run, equal_arrays(c.states['w'], recent(ys[run], w0, m, lift(ys[run].shape[0]) - 1)))
        else:
            same_states(h, c.states, st, 'a forecast leaves the states alone')
        h.ensure('the model is left alone', And(equal_arrays(c.P_future, basis), equal_arrays(c.F, F), equal_arrays(c.H, H_)))
    if 1 not in out or 2 not in out:
        raise PathEnd()
    h.ensure('one row per sample', And(lift(out[1].shape[0]) == n1, lift(out[2].shape[0]) == n2, lift(out[1].shape[1]) == nsa))
    h.ensure('a forecast depends on no later sample', forall(lambda i, j: Implies(i <= t, same(out[1].read(i, j), out[2].read(i, j))), (0, n1), (0, nsa)))


for _fresh in (True, False):
    for _fit in (True, False):
        contract('Kalman Fourier, %s, %s' % ('first use' if _fresh else 'with memory', 'fit' if _fit else 'forecast'), [P + 'FK.run', P + 'update_predictions'], use('fk'))(lambda h, a=_fresh, b=_fit: kalman_fourier(h, a, b))


# ---------------------------------------------------------------- exponential smoothing
HW = 'pyforecaster.forecasting_models.holtwinters'
PH = 'pyforecaster/forecasting_models/holtwinters.py: '


class Pass:
    """the pass over a series as C10 proves it of holtwinters.run: LEV, TR, SG1, SG2 and OUT are what the recursion makes of the
    samples y from the states before sample 0; run on samples k .. k+n-1, from the states after sample k-1, returns OUT(k), ... and the
    states after sample k+n-1 (C10, 'pass continued from a later sample')"""
    def __init__(self, h, y, p, m, pars):
        self.h, self.y, self.p, self.m, self.pars = h, y, p, m, pars
        self.LEV, self.TR, self.S1, self.S2 = (ghost(k, 'i', 'r') for k in ('LEV', 'TR', 'SG1', 'SG2'))
        self.OUT = ghost('OUT', 'ii', 'r')
        self.at = 0

    def states(self, k):
        k = lift(k)
        return self.LEV(k - 1), self.TR(k - 1), A.Arr((self.p[0],), lambda i: self.S1(lift(i) + k - self.p[0]), 'f'), A.Arr((self.p[1],), lambda i: self.S2(lift(i) + k - self.p[1]), 'f')

    def run(self, horizon, period, alpha, beta, gamma, s1, s2, a, b, Y, y_tot, y_hat_i, constraints):
        h, k = self.h, lift(self.at)
        n = norm(A.as_arr(Y).shape[0])
        st = self.states(k)
        h.ensure('the pass goes on from where the last one stopped', And(same(plain(a), st[0]), same(plain(b), st[1]), equal_arrays(s1, st[2]), equal_arrays(s2, st[3])))
        h.ensure('the pass sees the next samples', And(k + n <= self.y.shape[0], equal_arrays(Y, A.Arr((n,), lambda i: self.y.read(lift(i) + k), 'f'))))
        h.ensure('the pass has the smoothing parameters, periods and horizons of the model', And(
            equal_arrays(horizon, A.Arr((self.m,), lambda i: A.cast(lift(i) + 1, 'f'), 'f')), equal_arrays(period, as_arr([A.cast(v, 'f') for v in self.p])),
            same(plain(alpha), self.pars[0]), same(plain(beta), self.pars[1]), equal_arrays(gamma, as_arr(list(self.pars[2:])))))
        h.ensure('forecasts start as the samples', equal_arrays(y_tot, A.Arr((n, self.m), lambda i, j: self.y.read(lift(i) + k), 'f')))
        self.at = norm(k + n)
        e = self.states(self.at)
        return A.Arr((n, self.m), lambda i, j: self.OUT(lift(i) + k, j), 'f'), e[0], e[1], e[2].copy(), e[3].copy()


def smoothing(h, covariates):
    hw = h.module(HW)
    n, c, m, p1, p2 = sint('samples', 2), sint('cut', 1), sint('steps', 1), sint('p1', 1), sint('p2', 1)
    h.assume(c < n)
    idx = frame.time_index('index', n, True)
    cols = ['target'] + ['c%d' % i for i in range(covariates)]
    T = table('data', n, idx, cols, 'f')
    pars = [sreal(k) for k in ('alpha', 'beta', 'g1', 'g2')]
    y = A.as_arr(T['target'].values)
    g = Pass(h, y, (p1, p2), m, pars)
    hw.run = g.run
    co = symbolic('coefficients', (len(cols), m))

    def model():
        o = hw.HoltWinters.__new__(hw.HoltWinters)
        o.target_name, o.n_sa, o.periods, o.constraints = 'target', m, [p1, p2], None
        o.alpha, o.beta, o.gamma_1, o.gamma_2 = pars
        o.coeffs_output = co.copy()
        o.target_cols = frame.range_index(m)
        o.a, o.b, o.s1, o.s2 = g.states(0)
        return o
    whole = model()
    g.at = 0
    r = whole.predict(T)
    parts = model()
    g.at = 0
    h.ensure('one row per sample', And(lift(r.values.shape[0]) == n, lift(r.values.shape[1]) == m))
    r1 = parts.predict(T.iloc[:c])
    r2 = parts.predict(T.iloc[c:])
    h.ensure('the first piece is forecast as within the whole, without the later samples', same_rows(r1, r, 0, c))
    h.ensure('the second piece is forecast as within the whole', same_rows(r2, r, c, n))
    for k in ('a', 'b', 's1', 's2'):
        h.ensure('state %s after the pieces is that after the whole' % k, same_value(plain(getattr(parts, k)), plain(getattr(whole, k))))


for _k in (0, 2):
    contract('smoothing in two pieces, %d covariates' % _k, [PH + 'HoltWinters.predict, HoltWinters._run'], use('hw'))(lambda h, k=_k: smoothing(h, k))


BE = 'pyforecaster.forecasting_models.benchmarks'
PB = 'pyforecaster/forecasting_models/benchmarks.py: '


def windows(h):
    """the contract of hankel, which C08 proves ('windows of all offsets')"""
    def hankel(x, n, generate_me=None):
        if generate_me is not None:
            raise Unsupported('chosen offsets')
        x = as_arr(x).ravel()
        s, L = x.snapshot(), lift(x.shape[0])
        h.ensure('windows fit in the series', And(lift(n) >= 1, lift(n) <= L))
        return A.Arr((norm(L - n + 1), n), lambda i, j: s(lift(i) + j), 'f')
    return hankel


def persistence(h, seasonal):
    f = h.module(BE)
    f.hankel = windows(h)
    n1, n2, t, y1, y2 = common(h)
    m, s = sint('steps', 1), sint('season', 1)
    h.assume(s >= m - 1)
    state = symbolic('state', (s, 1))
    out = []
    for k, (n, y) in enumerate([(n1, y1), (n2, y2)]):
        T = table('data%d' % k, n, frame.time_index('index%d' % k, n, True), ['target', 'other'], 'f')
        T = frame.Frame([y.copy(), A.as_arr(T['other'].values)], T.index, pd.Index(['target', 'other']))
        c = (f.SeasonalPersistent if seasonal else f.Persistent).__new__(f.SeasonalPersistent if seasonal else f.Persistent)
        c.n_sa, c.target_col = m, 'target'
        if seasonal:
            c.seasonality, c.state = s, state.copy()
        for rep in (1, 2):
            r = c.predict(T)
            h.ensure('one row per sample, labelled with it', And(lift(r.values.shape[0]) == n, lift(r.values.shape[1]) == m, lift(r.index is T.index) if r.index is T.index else forall(lambda i: same(r.index.key(i), T.index.key(i)), (0, n))))
            if rep == 2:
                h.ensure('asked again, the same answer', equal_arrays(r.values, out[-1].values))
            else:
                out.append(r)
        if seasonal:
            h.ensure('the stored season is left alone', equal_arrays(c.state, state))
    h.ensure('a forecast depends on no later sample', forall(lambda i, j: Implies(i <= t, same(out[0].values.read(i, j), out[1].values.read(i, j))), (0, n1), (0, m)))


contract('persistence', [PB + 'Persistent.predict'], use('pers'))(lambda h: persistence(h, False))
contract('seasonal persistence', [PB + 'SeasonalPersistent.predict'], use('seas'))(lambda h: persistence(h, True))


class Sub:
    """a sub-model of k steps: what it forecasts is a function of the rows (its own contract: pieces are forecast as within the whole)"""
    def __init__(self, h, k, F, key):
        self.h, self.k, self.F, self.key, self.seen = h, k, F, key, []

    def predict(self, x, **kw):
        self.seen.append(x)
        o = self.key(x)
        return frame.Frame(A.Arr((x.values.shape[0], self.k), lambda i, j: self.F(lift(i) + o, j), 'f'), x.index, pd.Index(['target_%d' % i for i in range(self.k)]))


def multi(h, periods, m):
    hw = h.module(HW)
    n, c = sint('samples', 2), sint('cut', 1)
    h.assume(c < n)
    T = table('data', n, frame.time_index('index', n, True), ['target', 'other'], 'f')
    Fs = [ghost('F%d' % i, 'ii', 'r') for i in range(len(periods))]
    off = [0]

    def model():
        o = hw.HoltWintersMulti.__new__(hw.HoltWintersMulti)
        o.target_name, o.n_sa, o.models_periods = 'target', m, np.array(periods)
        o.models = [Sub(h, k, F, lambda x: off[0]) for k, F in zip(periods, Fs)]
        return o
    r = model().predict(T)
    p = model()
    r1 = p.predict(T.iloc[:c])
    off[0] = c
    r2 = p.predict(T.iloc[c:])
    for s in p.models:
        h.ensure('each sub-model is asked once per piece', lift(len(s.seen) == 2))
        if len(s.seen) == 2:
            h.ensure('each sub-model sees the pieces in turn', And(same_rows(s.seen[0], T, 0, c), same_rows(s.seen[1], T, c, n)))
    h.ensure('the pieces are forecast as within the whole', And(same_rows(r1, r, 0, c), same_rows(r2, r, c, n)))


for _p, _m in (([1], 1), ([1, 2, 3], 3), ([2, 3], 3), ([1, 4], 4)):
    contract('several smoothing passes, steps %s' % _p, [PH + 'HoltWintersMulti.predict'], use('hwm'))(lambda h, p=_p, m=_m: multi(h, p, m))


class TwinList(Twin):
    """Twin, with a second list that has one row per sample"""
    def hrows(self, i, run):
        g1, g2 = self.ghost(1, 'hrow', 1), self.ghost(2, 'hrow', 1)
        return SList(norm(i), lambda k: A.Arr((self.K,), lambda c: g1(lift(k), c) if run == 1 else ite(lift(k) <= self.t, g1(lift(k), c), g2(lift(k), c)), 'f'))

    def values(self, L, i):
        d = Twin.values(self, L, i)
        d['coeffs_t_history'] = self.hrows(i, self.run)
        return d

    def check(self, L, i, cur):
        goals = Twin.check(self, L, i, cur)
        hist = cur['coeffs_t_history']
        if isinstance(i, int) and i == 0:
            goals.append(('no weights yet', lift(len(hist) == 0)))
            return goals
        goals.append(('one row of weights per sample', lift(hist.n) == i))
        goals.append(('earlier weights are kept', forall(lambda k, c: same(as_arr(hist.fn(k)).read(c), self.hrows(i, self.run).fn(k).read(c)), (0, i - 1), (0, self.K))))
        last = as_arr(hist.fn(norm(lift(i) - 1)))
        if self.run == 1:
            self.h1 = last
        else:
            goals.append(('same weights after a common sample', equal_arrays(last, self.h1)))
        return goals


def mixture(h, nsa, K):
    f = h.module(FA)
    f.deepcopy = dup
    n1, n2, t, y1, y2 = common(h)
    m = sint('memory', 1)
    st = {'x': symbolic('x0', (K,)), 'P': symbolic('P0', (K, K)), 'R': symbolic('R0', (K, K)), 'Q': symbolic('Q0', (K, K))}
    F, H_ = symbolic('F', (K, K)), symbolic('H', (K, K))
    T = TwinList(h, t, {'x': (K,), 'P': (K, K), 'Q': (K, K), 'R': (K, K)}, {}, nsa)
    T.K = K
    h.loop(FA, ('FK_multi.run', 1), T)
    f.kalman = Same(h, 'kalman', [lambda a: (K,), lambda a: (K, K)], T)
    f.np = NPWith(f.np, corrcoef=Same(h, 'corrcoef', [lambda a: (K, K)], T))
    G = [[ghost('forecast%d_%s' % (k, w), 'ii', 'r') for w in ('past', 'rest1', 'rest2')] for k in range(K)]
    out, ys = {}, {1: y1, 2: y2}
    for run in (1, 2):
        T.run = run
        n = ys[run].shape[0]
        tab = frame.Frame([ys[run].copy()], frame.time_index('index%d' % run, n, True), pd.Index(['target']))

        class Sub:
            def __init__(self, k):
                self.k, self.seen = k, []

            def fit(self, x, *a):
                self.seen.append('fit')

            def predict(self, x):
                self.seen.append(x)
                return A.Arr((n, nsa), lambda i, j: ite(lift(i) <= t, G[self.k][0](lift(i), j), G[self.k][run](lift(i), j)), 'f')
        c = f.FK_multi.__new__(f.FK_multi)
        c.states = dup(st)
        c.m, c.n_sa, c.n_predictors, c.F, c.H, c.target_name = m, nsa, K, F.copy(), H_.copy(), 'target'
        c.models = [Sub(k) for k in range(K)]
        try:
            out[run] = as_arr(c.run(tab, fit=False)[0])
        except PathEnd:
            if run == 2:
                raise
            continue
        if T.i1 is not None:
            continue
        same_states(h, c.states, st, 'a forecast leaves the states alone')
        h.ensure('the sub-models are not fitted again', lift(not any(isinstance(x, str) for s in c.models for x in s.seen)))
        h.ensure('the sub-models forecast the whole table', And(*[same_rows(x, tab, 0, n) for s in c.models for x in s.seen if not isinstance(x, str)]))
        h.ensure('the model is left alone', And(equal_arrays(c.F, F), equal_arrays(c.H, H_)))
    if 1 not in out or 2 not in out:
        raise PathEnd()
    h.ensure('one row per sample', And(lift(out[1].shape[0]) == n1, lift(out[2].shape[0]) == n2, lift(out[1].shape[1]) == nsa))
    h.ensure('a forecast depends on no later sample', forall(lambda i, j: Implies(i <= t, same(out[1].read(i, j), out[2].read(i, j))), (0, n1), (0, nsa)))


for _s, _k in ((1, 2), (2, 2), (2, 3)):
    contract('mixture of %d Kalman Fourier models, %d steps, forecast' % (_k, _s), [P + 'FK_multi.run'], use('fkm'))(lambda h, s=_s, k=_k: mixture(h, s, k))
