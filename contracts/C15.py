"""C15: the hourly copula, for every table, hour pattern, horizon and number of scenarios."""
from core import *
from core import _fn
import types
import frame, pandas as pd
import arr as A
ASSUMPTIONS = ['draws are told apart by ghost labels (hour of the matrix, number of the draw, scenario, step)', 'correlation and covariance estimators are fixed functions of the rows they are given, symmetric, with positive diagonal; np.corrcoef has ones on its diagonal (no column of an hour is constant: precondition); the graphical lasso keeps the empirical variances',
               'scipy multivariate_normal(mean, matrix).rvs draws from that matrix and drops axes of length one; norm.cdf maps into [0, 1]',
               'hours of time labels are an uninterpreted function with values 0..23', 'real arithmetic instead of floating point', 'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.copula'
FF = 'pyforecaster/copula.py: '


def W_fit(h, m):
    return [dict(case='fit', params=dict(seed=s, n=240, d=d, dt=60, tz=None, spread=sp, off=0, hours=hs, perm=perm, method=me)) for s, d, sp, hs, perm, me in
            ((1, 3, 1., [0, 5, 23], True, 'vanilla'), (2, 1, 1., list(range(24)), False, 'vanilla'), (3, 2, 20., [3, 4], False, 'shrunk'), (4, 3, 1., [0, 5, 23], True, 'glasso'), (5, 2, 1., [3, 9, 11], True, 'glasso_cv'))]


def W_sample(h, m):
    return [dict(case='sample', params=dict(seed=s, d=d, S=S_, rows=r, hours=hs, perm=pe, rs=rs)) for s, d, S_, r, hs, pe, rs in
            ((1, 3, 7, 12, list(range(24)), True, None), (2, 2, 7, 5, [5, 6], True, 3), (3, 1, 7, 5, [23, 0, 12], False, None), (4, 3, 1, 5, [5, 6], True, None), (5, 3, 7, 1, [0], False, None), (6, 1, 1, 1, [0], False, 3))]


class HourMap:
    """a dictionary with hours as keys"""
    __pydv_sym__ = True

    def __init__(self, has, get):
        self.has, self.get, self.new = has, get, []

    def __setitem__(self, k, v):
        self.new.append((k, v))

    def __getitem__(self, k):
        if self.new:
            raise Unsupported('reading back a changed table of hours')
        if not bool(self.has(k)):
            raise KeyError(k)
        return self.get(k)

    def values(self):
        raise Unsupported('all matrices')
    items = keys = values

    def __pydv_len__(self):
        raise Unsupported('number of matrices')


EST = {k: z3.Function('EST_' + k, z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort()) for k in ('corr', 'shrunk', 'lasso')}


def mask_key(mask, n):
    j = sym.fresh(z3.IntSort(), 'm')
    return z3.Lambda([j], z3.simplify(boolterm(mask.snapshot()(S(j))))), numterm(n)


def estimate(kind, mask, n, d):
    """what the estimator finds in the selected rows"""
    lam, nt = mask_key(mask, n)
    f = EST[kind]
    return Arr((d, d), lambda i, j: S(z3.If(numterm(i) <= numterm(j), f(lam, nt, numterm(i), numterm(j)), f(lam, nt, numterm(j), numterm(i)))), 'f')


def selected_rows(h, x):
    """the mask of the rows of the table that x holds"""
    fr = x.f if isinstance(x, frame.Transposed) else x
    if isinstance(fr, frame.Frame) and fr.index is h.y.index and h.equal(fr.values, h.y0):
        return Arr((h.y.index.n,), lambda i: S(z3.BoolVal(True)), 'b')
    if not isinstance(fr, frame.Frame) or fr.index.base is None or not fr.index.base[0].same(h.y.index):
        raise Unsupported('estimation from other data')
    mask = fr.index.base[1]
    rows = h.y0[mask, :] if not isinstance(h.y0, frame.Frame) else None
    if not h.equal(fr.values, rows):
        raise Unsupported('estimation from other values')
    return mask


def setup(h, method, logger=None):
    f = h.module(F)
    n, d = sint('rows', 1), sint('steps', 1)
    ix = frame.time_index('t', n, increasing=False)
    y = table('y', n, ix, d)
    h.y, h.y0 = y, y.values.copy()
    h.equal = lambda a, b: sym.prove(list(ctx().path), equal_arrays(a, b), timeout=3000, want_model=False).status == 'proved'
    c = f.HourlyGaussianCopula(cov_est_method=method, logger=types.SimpleNamespace(info=lambda *a: None))
    return f, c, n, d, ix, y


def diag_facts(kind, variance):
    """facts about the estimate, instantiated at its occurrences"""
    def ax(t):
        lam, n, i, j = t.children()
        if kind == 'corr':
            return [z3.Implies(i == j, t == 1)]
        out = [z3.Implies(i == j, t > 0)]
        if variance:
            out.append(z3.Implies(i == j, t == numterm(variance(lam, n, S(i)))))
        return out
    sym.AX[EST[kind].get_id()] = ax


class Estimator:
    def __init__(self, h, kind, d, **k):
        self.h, self.kind, self.d = h, kind, d

    def fit(self, x, *a):
        self.h.mask = selected_rows(self.h, x)
        self.covariance_ = estimate(self.kind, self.h.mask, self.h.y.index.n, self.d)
        return self


def fit(h, method):
    f, c, n, d, ix, y = setup(h, method)
    diag_facts('corr', None)
    diag_facts('shrunk', None)
    var = lambda lam, nt, i: S(VAR(lam, nt, numterm(i)))
    diag_facts('lasso', var)
    sym.AX[VAR.get_id()] = lambda t: [t > 0]
    np_ = f.np
    h.penalty = []
    f.ShrunkCovariance = lambda **k: Estimator(h, 'shrunk', d)
    f.GraphicalLasso = lambda **k: h.penalty.append(k) or Estimator(h, 'lasso', d)

    def corrcoef(x, rowvar=True, **k):
        if not isinstance(x, frame.Transposed) or not rowvar:
            raise Unsupported('correlation of another table')
        return estimate('corr', selected_rows(h, x), n, d)

    def std(x, axis=None, ddof=0, **k):
        m = own_mask(h, x)
        if m is None or axis != 0 or ddof:
            return np_.std(x, axis=axis, ddof=ddof, **k)
        lam, nt = mask_key(m, n)
        return Arr((d,), lambda i: sym.sqrt(S(VAR(lam, nt, numterm(i)))), 'f')
    f.np = NPWith(np_, corrcoef=corrcoef, std=std)
    hr = as_arr(ix.hour).snapshot()
    hours = A.unique(as_arr(ix.hour))
    eye = lambda i, j: ite(lift(i) == j, 1., 0.)

    def want(k):
        """the matrix of hour k"""
        mask = Arr((n,), lambda r: lift(hr(r)) == k, 'b')
        if method == 'vanilla':
            e = estimate('corr', mask, n, d).snapshot()
            return Arr((d, d), lambda i, j: lift(e(i, j)) + eye(i, j) * 1e-6, 'f')
        e = estimate('shrunk' if method == 'shrunk' else 'lasso', mask, n, d).snapshot()
        return Arr((d, d), lambda i, j: lift(e(i, j)) / (sym.sqrt(e(i, i)) * sym.sqrt(e(j, j))), 'f')

    class OwnRows(LoopSpec):
        def check(self, L, i, cur):
            m = cur['est_covs']
            k = hours.read(i - 1) if not (isinstance(i, int)) else None
            if isinstance(m, dict):
                return [('no hour done yet', not m and isinstance(i, int) and i == 0)]
            if not isinstance(m, HourMap) or m is not L.map or len(m.new) != 1:
                raise Unsupported('another table of hours')
            kk, v = m.new[0]
            h.result(kk, v)
            return [('one entry, of this hour', lift(kk) == k), ('the estimate from the rows of this hour alone', h.own_rows(kk, v))]
    def values(L, i):
        L.map = HourMap(lambda k: S(z3.BoolVal(True)), lambda k: want(k))
        return dict(est_covs=L.map)

    def result(k, m):
        m = as_arr(m)
        s = m.snapshot()
        h.ensure('one row and column per step', And(m.ndim == 2, lift(m.shape[0]) == d, lift(m.shape[1]) == d))
        h.ensure('symmetric', forall(lambda i: forall(lambda j: lift(s(i, j)) == s(j, i), (0, d)), (0, d)))
        h.ensure('unit diagonal up to the regularisation', forall(lambda i: And(lift(s(i, i)) >= 1, lift(s(i, i)) <= 1 + 2.**-16), (0, d)))

    def own_rows(k, m):
        """m does not change when the rows of other hours do: it is a function of the rows of hour k"""
        return equal_arrays(m, want(k)) if method == 'vanilla' else own_estimate(m, want(k))
    own_estimate = lambda a, b: equal_arrays(a, b)
    h.result, h.own_rows = result, own_rows
    h.loop(F, ('HourlyGaussianCopula.fit', 0), OwnRows('matrices of the hours', values, local=('h', 'hour_filt', 'x_h', 'est_cov', 'sh', 'std', 'gl')))
    if method == 'glasso_cv':
        alpha = sreal('alpha')
        f.GraphicalLassoCV = lambda **k: types.SimpleNamespace(fit=lambda x: types.SimpleNamespace(alpha_=alpha))
    out = c.fit(y)
    h.ensure('the copula itself, with its matrices', out is c and isinstance(c.pars, HourMap))
    h.ensure('dimension', same(c.dim, d))
    h.ensure('the table is unchanged', equal_arrays(y.values, h.y0))


VAR = z3.Function('VAR_of_rows', z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort(), z3.IntSort(), z3.RealSort())


def own_mask(h, x):
    """the mask of the rows given to the estimator, when x holds the same rows"""
    m = getattr(h, 'mask', None)
    return m if m is not None and h.equal(as_arr(x), h.y0[m, :]) else None


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


for _m in ('vanilla', 'shrunk', 'glasso', 'glasso_cv'):
    contract('matrices of the hours, %s' % _m, [FF + 'HourlyGaussianCopula.fit'], W_fit)(lambda h, m=_m: fit(h, m))



# ---------------------------------------------------------------- sampling
CDF = z3.Function('normal_cdf', z3.RealSort(), z3.RealSort())
sym.AX[CDF.get_id()] = lambda t: [t >= 0, t <= 1]


class Normal:
    """scipy's multivariate normal of one hour"""
    def __init__(self, h, mu, cov):
        self.h = h
        hour = getattr(cov, 'hour', None)
        if hour is None or not h.equal(as_arr(mu), arr.full((h.d,), 0.)):
            raise Unsupported('a distribution of unknown mean or matrix')
        self.hour = hour

    def rvs(self, size=1, random_state=None):
        size = tuple(norm(x) for x in size)
        self.h.seeds.append(random_state)
        dims = size + (self.h.d,)
        hour, f = self.hour, self.h.draw
        a = Arr(dims, lambda *i: f(hour, *i) if len(i) == 3 else A._uns('draws of another shape'), 'f')
        keep = [k for k, x in enumerate(dims) if not bool(lift(x) == 1)]        # axes of length one are dropped
        if len(keep) == len(dims):
            return a
        s = a.snapshot()
        return Arr(tuple(dims[k] for k in keep), lambda *i: s(*[i[keep.index(k)] if k in keep else 0 for k in range(len(dims))]), 'f')


@contract('samples', [FF + 'HourlyGaussianCopula.sample'], W_sample)
def sample(h):
    f = h.module(F)
    n, d, s = sint('rows', 1), sint('steps', 1), sint('scenarios', 1)
    ix = frame.time_index('t', n, increasing=False)
    x = frame.Frame([symbolic('x', (n,))], ix, pd.Index(['x']))
    h.d, h.seeds = d, []
    h.draw = _fn('DRAW', 'iiii', 'r')          # hour, number of the row among those of the hour, scenario, step
    h.equal = lambda a, b: sym.prove(list(ctx().path), equal_arrays(a, b), timeout=3000, want_model=False).status == 'proved'
    matrix = _fn('MATRIX', 'iii', 'r')

    def get(k):
        m = Arr((d, d), lambda i, j: matrix(k, i, j), 'f')
        m.hour = k
        m.readonly = True
        return m
    c = object.__new__(f.HourlyGaussianCopula)
    c.dim, c.pars = d, HourMap(lambda k: S(z3.BoolVal(True)), get)
    f.multivariate_normal = lambda mu, cov, **k: Normal(h, mu, cov)
    f.norm = types.SimpleNamespace(cdf=lambda a: A.elementwise(lambda v: S(CDF(sym.real(numterm(v)))), a))
    hours = as_arr(ix.hour)
    hr = hours.snapshot()
    pos = A.unique(hours, True)[1].snapshot()
    tags = [_fn(k, 'r', 'i') for k in ('HOUR_OF', 'DRAW_OF', 'SCENARIO_OF', 'STEP_OF')]        # draws carry where they come from
    sym.AX[h.draw.d.get_id()] = lambda t: [f.d(t) == t.arg(k) for k, f in enumerate(tags)] + [f.d(CDF(t)) == t.arg(k) for k, f in enumerate(tags)]

    def drawn(cell, r, below):
        """the row holds, for every scenario, the steps of one draw of its own hour"""
        def one(j, k):
            v, first = lift(cell(r, j, k)), lift(cell(r, 0, k))
            H, N, C, J = [f(v) for f in tags]
            return And(H == hr(r), J == j, N == tags[1](first), C == tags[2](first), v >= 0, v <= 1)
        j, k = (S(sym.fresh(z3.IntSort(), q)) for q in 'jk')         # any step, any scenario
        return Implies(And(below, j >= 0, j < d, k >= 0, k < s), one(j, k))

    class Drawn(LoopSpec):
        def check(self, L, i, cur):
            v = as_arr(cur['copula_samples'])
            cell = v.snapshot()
            r = S(sym.fresh(z3.IntSort(), 'row'))
            inside = And(r >= 0, r < n)
            return [('shape', And(v.ndim == 3, *[lift(a) == b for a, b in zip(v.shape, (n, d, s))])),
                    ('rows of the hours done hold draws of their own hour', drawn(cell, r, And(inside, lift(pos(r)) < i)))]

    lam, nt, cnt, _ = A.unique_parts(hours)

    def values(L, i):
        if L.i is i:
            row = S(A.UFST(lam, nt, numterm(i)))          # a row of the hour at hand
            h.assume(Implies(lift(i) < cnt, And(row >= 0, row < n, lift(hr(row)) == A.unique(hours).read(i))))
        nth, sc = symbolic('nth', (n, s), 'i'), symbolic('sc', (n, s), 'i')
        other = symbolic('unfilled', (n, d, s))
        return dict(copula_samples=Arr((n, d, s), lambda r, j, k: ite(lift(pos(r)) < i, S(CDF(h.draw(hr(r), nth.read(r, k), sc.read(r, k), j).t)), other.read(r, j, k)), 'f'))
    h.loop(F, ('HourlyGaussianCopula.sample', 0), Drawn('rows of the hours', values, local=('h', 'cov_h', 'mu', 'mvr', 'hour_filt', 'mvr_samples')))
    seed = sint('seed')
    out = c.sample(x, s, random_state=seed)
    o, r0 = out.snapshot(), S(sym.fresh(z3.IntSort(), 'row'))
    h.ensure('rows by steps by scenarios', And(*[lift(a) == b for a, b in zip(out.shape, (n, d, s))]))
    h.ensure('every row is drawn with the matrix of its own hour, steps together, and lies in [0, 1]', drawn(o, r0, And(r0 >= 0, r0 < n)))
