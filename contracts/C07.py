"""C07: the row cap, for every table, cap and number of rows per hour; the number of distinct hours is enumerated (1, 2, 3)."""
from core import *
from core import _fn
import types
import frame
import arr as A
ASSUMPTIONS = ['numpy.random.default_rng(seed) is a deterministic generator; multinomial(m, p) returns non-negative counts adding up to m; choice(pool, size, replace=False) returns different members of the pool and refuses a size above the pool',
               'np.unique returns the distinct hours in increasing order, np.bincount of its inverse the number of rows of each hour (adding up to the number of rows); np.argsort returns the permutation that sorts',
               'the number of distinct hours is enumerated (1, 2, 3); hours of time labels are an uninterpreted function with values 0..23', 'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.forecaster'
FF = 'pyforecaster/forecaster.py: '


def W(h, m):
    out = []
    for s, (ix, n, cap, hrs) in enumerate([('hours', 30, 17, [3]), ('hours', 60, 31, [0, 5]), ('hours', 60, 7, [1, 2, 9]), ('time', 200, 150, []), ('skewed', 200, 190, []), ('unsorted', 60, 24, []), ('time', 60, 59, []),
                                            ('time', 200, 24, []), ('time', 200, 23, []), ('int', 60, 30, []), ('range', 60, 30, []), ('time', 30, 30, []), ('time', 30, 31, []), ('time', 24, 1, []), ('hours', 200, 199, [7, 8]), ('skewed', 60, 40, [])]):
        for seed in (0, 7):
            out.append(dict(case='cap', params=dict(index=ix, n=n, m=cap, seed=s, dt=60, tz=None, heavy=1, hours=hrs, rs=seed, rs_attr=5 if s % 3 == 2 else None)))
    return out


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


def distinct(a):
    a = as_arr(a)
    sn = a.snapshot()
    return forall(lambda i, j: Implies(i < j, Not(lift(sn(i)) == sn(j))), (0, a.shape[0]), (0, a.shape[0]))


class Rng:
    """numpy.random.Generator"""
    def __init__(self, h, seed):
        self.h, self.seed, self.k = h, seed, 0
        h.rngs.append(self)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        self.k += 1
        if size is None or p is not None or axis != 0:
            raise Unsupported('options of choice')
        pool = None if isinstance(a, (int, S)) else as_arr(a)
        if pool is not None and pool.ndim == 0:
            a, pool = pool.item(), None
        n = lift(a) if pool is None else lift(pool.shape[0])
        pick = z3.Function('PICK%d' % self.k, z3.IntSort(), z3.IntSort())
        inv = z3.Function('PICKED%d' % self.k, z3.IntSort(), z3.IntSort())
        sz = lift(size)
        if not replace:
            if bool(sz > n):
                raise ValueError('Cannot take a larger sample than population when replace is False')
        elif bool(n <= 0):
            raise ValueError('a cannot be empty')
        nt, st = numterm(n), numterm(sz)
        sym.AX[pick.get_id()] = lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < st), z3.And(t >= 0, t < nt))] + ([z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < st), inv(t) == t.arg(0))] if not replace else [])
        self.h.keep += [pick, inv]
        r = Arr((norm(sz),), lambda i: S(pick(numterm(i))), 'i')
        return r if pool is None else pool[r]

    def multinomial(self, n, pvals):
        self.k += 1
        p = as_arr(pvals)
        G = p.shape[0]
        if not isinstance(G, int):
            raise Unsupported('multinomial over a symbolic number of groups')
        v = [sint('draw', 0) for _ in range(G)]
        ctx().assume(boolterm(sum(v[1:], v[0]) == n))
        return arr_of(v)

    def __getattr__(self, k):
        raise Unsupported('generator method ' + k)


def arr_of(vals):
    sn = A.chain_s(list(vals))
    return Arr((len(vals),), lambda i: sn(i), 'i').copy()


def setup(h, G, datetime=True, cap=True):
    f = h.module(F)
    f.ScenGen = Recorder
    h.rngs, h.keep = [], []
    n = sint('rows', 1)
    ix = frame.time_index('t', n, increasing=False) if datetime else frame.Index(n, ghost('LABEL', 'i', 'i'), 'int')
    idx = Arr((n,), lambda i: lift(i), 'i')
    x = table('x', n, ix, ['id', 'b'])
    y = table('y', n, ix, ['id', 'c'])
    x['id'] = idx
    y['id'] = idx
    h.n, h.ix, h.x, h.y, h.G = n, ix, x, y, G
    np_ = f.np
    inv = {}

    def unique(a, return_inverse=False, **k):
        a = as_arr(a)
        if return_inverse:
            if k or h.hours is None:
                raise Unsupported('np.unique options')
            same_hours = sym.prove(list(ctx().path), equal_arrays(a, h.hours), timeout=3000, want_model=False).status == 'proved'
            if not same_hours:
                raise Unsupported('distinct values of something else than the hours')
            u = arr_of(h.us)
            sn = h.hours.snapshot()

            def pos(i):
                r = len(h.us) - 1
                for q in range(len(h.us) - 2, -1, -1):
                    r = ite(lift(sn(i)) == h.us[q], q, r)
                return r
            p = Arr((n,), pos, 'i')
            inv[id(p)] = p
            return u, p
        if k:
            raise Unsupported('np.unique options')
        if a.ndim != 1:
            raise Unsupported('np.unique of a matrix')
        if sym.prove(list(ctx().path), distinct(a), timeout=20000, want_model=False).status == 'proved':
            return sort(a)
        m = sint('distinct', 0)
        ctx().assume(boolterm(m <= a.shape[0]))
        ctx().assume(boolterm(Implies(m == a.shape[0], distinct(a))))
        w = z3.Function('WHICH', z3.IntSort(), z3.IntSort())
        at, mt = numterm(a.shape[0]), numterm(m)
        h.keep.append(w)
        sym.AX[w.get_id()] = lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < mt), z3.And(t >= 0, t < at))]
        return a[Arr((m,), lambda i: S(w(numterm(i))), 'i')]

    def bincount(a, weights=None, minlength=0):
        if id(a) not in inv or weights is not None:
            raise Unsupported('bincount of something else than the inverse of np.unique')
        return arr_of(h.counts)

    def argsort(a, axis=-1, kind=None, **k):
        a = as_arr(a)
        if a.ndim != 1 or k:
            raise Unsupported('argsort of a matrix')
        q = len(h.keep)
        o, back = z3.Function('ORD%d' % q, z3.IntSort(), z3.IntSort()), z3.Function('BACK%d' % q, z3.IntSort(), z3.IntSort())
        h.keep += [o, back]
        mt = numterm(a.shape[0])
        sn = a.snapshot()
        key = lambda t: numterm(getattr(sn(S(t)), 'val', sn(S(t))))
        inr = lambda t: z3.And(t >= 0, t < mt)
        sym.AX[o.get_id()] = lambda t: [z3.Implies(inr(t.arg(0)), z3.And(inr(t), back(t) == t.arg(0)))]

        def pairs(prs):
            return [z3.Implies(z3.And(s.arg(0) >= 0, s.arg(0) < t.arg(0), t.arg(0) < mt), key(s) <= key(t)) for p in prs for s, t in (p, p[::-1])]
        sym.FACTS[o.get_id()] = [pairs]
        return Arr((a.shape[0],), lambda i: S(o(numterm(i))), 'i')

    def sort(a, **k):
        a = as_arr(a)
        return a[argsort(a)]

    class Random:
        default_rng = staticmethod(lambda seed=None: Rng(h, seed))

        def __getattr__(self, k):
            raise Unsupported('np.random.' + k)
    f.np = NPWith(np_, unique=unique, bincount=bincount, argsort=argsort, sort=sort, random=Random())
    # hours of the rows
    h.hours = None
    if datetime:
        h.hours = as_arr(ix.hour)
        sn = h.hours.snapshot()
        h.us = [sint('hour%d' % k, 0, 23) for k in range(G)]
        for a, b in zip(h.us, h.us[1:]):
            h.assume(a < b)
        h.assume(forall(lambda i: Or(*[lift(sn(i)) == u for u in h.us]), (0, n)))
        h.counts = [A.sel_map(Arr((n,), lambda i, u=u: lift(sn(i)) == u, 'b'), n)[0] for u in h.us]
        for c in h.counts:
            h.assume(lift(c) >= 1)
        h.assume(sum([lift(c) for c in h.counts[1:]], lift(h.counts[0])) == n)
    fc = f.ScenarioGenerator.__new__(f.ScenarioGenerator)
    fc.logger = types.SimpleNamespace(info=lambda *a, **k: None, warning=lambda *a, **k: None)
    m = sint('cap', 1)
    fc.max_scengen_rows = m
    s = sint('seed')
    fc.scengen_random_state = s
    h.m, h.seed = m, s

    class Alloc(LoopSpec):
        """0 <= alloc <= rows of the hour, alloc adds up to the cap less the deficit, deficit >= 0"""
        def __init__(self, name, deficit):
            LoopSpec.__init__(self, name, self.values)
            self.deficit, self.last = deficit, None

        def wanted(self, loc):
            return all(k in loc for k in ('alloc', 'deficit'))

        def values(self, L, i):
            al = [sint('alloc', 0) for _ in range(G)]
            d = sint('deficit', 0)
            for a, c in zip(al, h.counts):
                ctx().assume(boolterm(a <= c))
            ctx().assume(boolterm(sum(al[1:], al[0]) + d == m))
            self.last = d
            return dict(alloc=arr_of(al), deficit=d, spare=A.symbolic('spare', (G,), 'i'), j=sint('j', 0))

        def check(self, L, i, cur):
            al = as_arr(cur['alloc'])
            d = cur['deficit'] if self.deficit else 0
            if al.ndim != 1 or not (isinstance(al.shape[0], int) and al.shape[0] == G):
                raise Unsupported('another shape of the allocation')
            v = [lift(al.read(k)) for k in range(G)]
            out = [('between 0 and the rows of the hour', And(*[And(a >= 0, a <= c) for a, c in zip(v, h.counts)])), ('adds up', And(lift(d) >= 0, sum(v[1:], v[0]) + d == m))]
            if not (isinstance(i, int) and i == 0):
                out.append(('one row closer', lift(d) < self.last))
            return out
    h.loop(F, ('ScenarioGenerator._subsample_stratified_by_hour', 'while0'), Alloc('rows per hour', True))
    return f, fc


def labels(a):
    return as_arr(a).snapshot()


def check(h, r, m, ident=None):
    x, y = r
    n = h.n
    if not isinstance(x, frame.Frame) or not isinstance(y, frame.Frame):
        raise Unsupported('no tables')
    ids, idy = x['id'].a, y['id'].a
    b, c = x['b'].a.snapshot(), y['c'].a.snapshot()
    sx, sy = ids.snapshot(), idy.snapshot()
    xb, yc = h.x['b'].a.snapshot(), h.y['c'].a.snapshot()
    L0, LX, LY = labels(h.ix.values), labels(x.index.values), labels(y.index.values)
    val = lambda v: getattr(v, 'val', v)
    k = lift(ids.shape[0])
    h.ensure('exactly the capped number of rows', k == m)
    h.ensure('as many target rows', lift(idy.shape[0]) == m)
    h.ensure('rows of the table', forall(lambda i: And(lift(sx(i)) >= 0, lift(sx(i)) < n), (0, m)))
    h.ensure('no row twice', forall(lambda i, j: Implies(i < j, Not(lift(sx(i)) == sx(j))), (0, m), (0, m)))
    h.ensure('features of the row', forall(lambda i: lift(b(i)) == xb(sx(i)), (0, m)))
    h.ensure('targets of the same row', forall(lambda i: And(lift(sy(i)) == sx(i), lift(c(i)) == yc(sx(i))), (0, m)))
    h.ensure('labels of the row', forall(lambda i: And(same(LX(i), L0(sx(i))), same(LY(i), L0(sx(i)))), (0, m)))
    h.ensure('in time order', forall(lambda i, j: Implies(i < j, val(LX(i)) <= val(LX(j))), (0, m), (0, m)))


def stratified(h, G):
    f, fc = setup(h, G)
    n, m = h.n, h.m
    h.assume(m < n)
    r = fc._maybe_subsample_for_scengen(h.x, h.y)
    check(h, r, m)
    for g in h.rngs:
        h.ensure('generator seeded with the chosen seed', (g.seed is not None and same(g.seed, h.seed)))
    h.ensure('one generator', len(h.rngs) == 1)


for _g in (1, 2, 3):
    contract('cap with %d hours' % _g, [FF + 'ScenarioGenerator._maybe_subsample_for_scengen', FF + 'ScenarioGenerator._subsample_stratified_by_hour', FF + 'ScenarioGenerator._subsample_uniform', FF + 'ScenarioGenerator._order_rows_by_index_order'], W, unbounded=False)(lambda h, g=_g: stratified(h, g))


@contract('cap, rows without times', [FF + 'ScenarioGenerator._maybe_subsample_for_scengen', FF + 'ScenarioGenerator._subsample_uniform', FF + 'ScenarioGenerator._order_rows_by_index_order'], W)
def labels_only(h):
    f, fc = setup(h, 0, datetime=False)
    h.assume(h.m < h.n)
    check(h, fc._maybe_subsample_for_scengen(h.x, h.y), h.m)
    h.ensure('one generator, seeded with the chosen seed', And(len(h.rngs) == 1, *[(g.seed is not None and same(g.seed, h.seed)) for g in h.rngs]))


def whole(h, r):
    x, y = r
    h.ensure('all rows', And(lift(x.index.n) == h.n, lift(y.index.n) == h.n))
    for a, b in ((x, h.x), (y, h.y)):
        for c in b.columns:
            h.ensure('unchanged', equal_arrays(a[c].a, b[c].a))
        h.ensure('labels unchanged', equal_arrays(a.index.values, b.index.values))


@contract('enough room under the cap', [FF + 'ScenarioGenerator._maybe_subsample_for_scengen'], W)
def room(h):
    f, fc = setup(h, 2)
    h.assume(h.m >= h.n)
    whole(h, fc._maybe_subsample_for_scengen(h.x, h.y))


@contract('no cap', [FF + 'ScenarioGenerator._maybe_subsample_for_scengen'], W)
def nocap(h):
    f, fc = setup(h, 2)
    fc.max_scengen_rows = None
    whole(h, fc._maybe_subsample_for_scengen(h.x, h.y))


@contract('the seed', [FF + 'ScenarioGenerator._get_scengen_subsample_seed'], W)
def seed(h):
    f = h.module(F)
    for own in (True, False):
        for other in ('absent', 'none', 'int'):
            fc = f.ScenarioGenerator.__new__(f.ScenarioGenerator)
            a, b = sint('seed'), sint('random_state')
            fc.scengen_random_state = a if own else None
            if other != 'absent':
                fc.random_state = b if other == 'int' else None
            s = fc._get_scengen_subsample_seed()
            h.ensure('a fixed number', s is not None and not isinstance(s, (str, float)))
            if own:
                h.ensure('the chosen seed', same(s, a))
            elif other == 'int':
                h.ensure('the seed of the model', same(s, b))


@contract('calibration on the selected rows', [FF + 'ScenarioGenerator.fit'], W)
def fit(h):
    f, fc = setup(h, 2)
    h.assume(h.m < h.n)
    k, d = h.m, 2
    ixs = frame.time_index('chosen', k, increasing=False)
    xs, ys = table('xs', k, ixs, ['id', 'b']), table('ys', k, ixs, ['id', 'c'])
    xs0, ys0 = xs.copy(), ys.copy()
    seen = []
    anti = table('anti', h.n, h.ix, ['id', 'c'])

    def sub(x, y):
        seen.append(('sub', x, y))
        return xs, ys

    def anti_transform(x, y):
        seen.append(('anti', x, y))
        return anti
    P = _fn('point', 'ri', 'r')
    got = []

    def predict(x, **kw):
        a = x['b'].a.snapshot()
        seen.append(('predict', x))
        return frame.Frame(Arr((x.index.n, d), lambda i, j: P(a(i), j), 'f'), x.index, ys._columns)

    class Sc:
        def fit(self, errs, x, n_scen=None):
            got.append((errs, x))

        def set_additional_node(self, v):
            pass

    def distr(errs, x):
        got.append((errs, x))
        return 'distr'
    fc._maybe_subsample_for_scengen, fc.anti_transform, fc.predict, fc.scengen, fc._estimate_err_distr = sub, anti_transform, predict, Sc(), distr
    fc.q_vect, fc.n_scen_fit, fc.additional_node = symbolic("q", (3,)), 7, False
    fc.fit(h.x, h.y)
    h.ensure('selection of the rows given, targets in original units', len([s for s in seen if s[0] == 'sub']) == 1 and [s for s in seen if s[0] == 'sub'][0][1] is h.x and [s for s in seen if s[0] == 'sub'][0][2] is anti)
    h.ensure('calibration once', len(got) == 2)
    b0, c0 = xs0['b'].a.snapshot(), ys0.values.snapshot()
    for errs, x in got:
        ev = errs.values.snapshot()
        h.ensure('residuals of the selected rows', forall(lambda i, j: lift(ev(i, j)) == lift(c0(i, j)) - P(b0(i), j), (0, k), (0, d)))
        h.ensure('rows of the selection', And(lift(errs.index.n) == k, equal_arrays(errs.index.values, ixs.values), equal_arrays(x.index.values, ixs.values), equal_arrays(x['b'].a, xs0['b'].a)))
