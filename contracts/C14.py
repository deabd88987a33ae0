"""C14: scenarios through the predicted quantile functions; forecast trees from stored trees."""
from core import *
from core import _fn
import copy, types
import frame, pandas as pd
import arr as A
ASSUMPTIONS = ['scipy.interpolate.interp1d(levels, values, fill_value="extrapolate") is the piecewise-linear function through the points, first and last piece extended',
               'np.random.rand is in [0, 1], np.random.randn within +-64', 'networkx get/set_node_attributes as modelled here (nodes in the order of their numbers); copy.deepcopy copies a tree and its arrays',
               'real arithmetic instead of floating point', 'numba.njit runs the Python source as written', 'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.scenarios_generator'
T = 'pyforecaster.scenred'
FS = 'pyforecaster/scenarios_generator.py: '
FT = 'pyforecaster/scenred.py: '


def W_scen(case):
    def w(h, m):
        out = []
        for s, nq, d, S_, n, form, add, init in ((1, 3, 2, 9, 2, 'np', False, False), (2, 5, 1, 2, 5, 'df', True, True), (3, 2, 4, 9, 1, 'dfx', True, False), (4, 11, 2, 1, 5, 'dfx', True, True), (5, 5, 4, 9, 2, 'df', False, False)):
            out.append(dict(case=case, params=dict(seed=s, nq=nq, d=d, S=S_, n=n, scale=1, off=0, flat=False, form=form, add=add, init=init)))
        return out
    return w


class Levels:
    """increasing levels and the piece of each copula value"""
    def __init__(self, h):
        self.n = sint('levels', 2)
        self.al = symbolic('level', (self.n,))
        h.assume(forall(lambda i: self.al.read(i) < self.al.read(lift(i) + 1), (0, self.n - 1)))
        self.piece = _fn('PIECE', 'r', 'i')
        n, a = self.n, self.al.snapshot()

        def ax(t):
            k, u = S(t), S(t.arg(0))
            return [boolterm(c) for c in (k >= 0, k <= n - 2, Or(k == 0, a(k) <= u), Or(k == n - 2, u <= a(k + 1)), a(k) < a(k + 1), a(0) <= a(k), a(k + 1) <= a(n - 1))]
        sym.AX[self.piece.d.get_id()] = ax
        sym.GHOST.add(self.piece.d.get_id())
        ctx().keep.append(self.piece.d)

    def value(self, q, u):
        """the predicted quantile function through the quantiles q(k)"""
        k = self.piece(u)
        a = self.al.snapshot()
        return q(k) + (lift(u) - a(k)) * (q(k + 1) - q(k)) / (a(k + 1) - a(k))

    def interp1d(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if not (isinstance(x, Arr) and x.fn is self.al.fn if hasattr(x, 'fn') else False) and not bool(equal_arrays(as_arr(x), self.al)):
            raise Unsupported('interpolation at other levels')
        if kind != 'linear' or not isinstance(fill_value, str) or fill_value != 'extrapolate':
            raise Unsupported('another interpolation')
        y = as_arr(y)
        if y.ndim == 1:
            ys = y.snapshot()
            return lambda u: A.elementwise(lambda v: self.value(lambda k: lift(ys(k)), v), u)
        ax = axis % y.ndim
        if y.ndim != 2 or ax != 1:
            raise Unsupported('interpolation along another axis')
        ys = y.snapshot()
        r = y.shape[0]

        def f(u):
            u = as_arr(u)
            us = u.snapshot()
            return Arr((r,) + tuple(u.shape), lambda i, *j: self.value(lambda k: lift(ys(i, k)), us(*j)), 'f')
        return f


@contract('interpolated scenarios', [FS + 'interp_scens'], W_scen('interp'))
def interp(h):
    f = h.module(F)
    lv = Levels(h)
    f.interp1d = lv.interp1d
    d, n = sint('steps', 1), sint('scenarios', 1)
    u, q = symbolic('copula', (d, n)), symbolic('quantile', (d, lv.n))
    us, qs = u.snapshot(), q.snapshot()
    own = lambda i, j: lv.value(lambda k: lift(qs(i, k)), us(i, j))
    h.loop(F, ('interp_scens', 0), LoopSpec('steps done', lambda L, i: dict(scenarios=Arr((d, n), lambda r, c: ite(lift(r) < i, own(r, c), 0.), 'f')), local=('step', 'quantiles_h', 'q_interpfun_at_step')))
    out = f.interp_scens(u, q, lv.al)
    h.ensure('the quantile function of its own step at its own copula value', equal_arrays(out, Arr((d, n), own, 'f')))
    h.ensure('the samples and the quantiles are unchanged', And(equal_arrays(u, Arr((d, n), us, 'f')), equal_arrays(q, Arr((d, lv.n), qs, 'f'))))


@contract('the quantile function', [FS + 'interp_scens'])
def shape(h):
    """lemmas about the function of the previous contract"""
    lv = Levels(h)
    q = symbolic('quantile', (lv.n,))
    h.assume(forall(lambda i: q.read(i) <= q.read(lift(i) + 1), (0, lv.n - 1)))
    val = lambda u: lv.value(lambda k: lift(q.read(k)), u)
    u, a, n = sreal('u'), lv.al, lv.n
    k = lv.piece(u)
    inside = [u >= a.read(0), u <= a.read(n - 1)]
    step = [q.read(k) <= q.read(k + 1)]
    h.ensure('between the adjacent levels', And(a.read(k) <= u, u <= a.read(k + 1)), inside)
    h.ensure('between the adjacent quantiles', And(q.read(k) <= val(u), val(u) <= q.read(k + 1)), inside + step + [a.read(k) <= u, u <= a.read(k + 1)])


@contract('scenarios of all rows', [FS + 'ScenGen.sample_scenarios'], W_scen('scen'))
def sample(h):
    samples(h, False, None)


@contract('scenarios with an initial observation', [FS + 'ScenGen.sample_scenarios'], W_scen('scen'))
def sample_init(h):
    samples(h, True, True)


@contract('scenarios with an additional node and no initial observation', [FS + 'ScenGen.sample_scenarios'], W_scen('scen'))
def sample_zero(h):
    samples(h, True, False)


def samples(h, add, init):
    f = h.module(F)
    lv = Levels(h)
    n, d, s = sint('rows', 1), sint('steps', 1), sint('scenarios', 1)
    U, Q = symbolic('copula', (n, d, s)), symbolic('quantile', (n, d, lv.n))
    us, qs = U.snapshot(), Q.snapshot()
    own = lambda t, i, j: lv.value(lambda k: lift(qs(t, i, k)), us(t, i, j))

    def interp_scens(u, q, al):
        """its contract"""
        u, q = as_arr(u), as_arr(q)
        if al is not lv.al:
            raise Unsupported('interpolation at other levels')
        a, b = u.snapshot(), q.snapshot()
        return Arr(u.shape, lambda i, j: lv.value(lambda k: lift(b(i, k)), a(i, j)), 'f')
    f.interp_scens = interp_scens
    g = object.__new__(f.ScenGen)
    x = frame.Frame([symbolic('x', (n,))], frame.time_index('t', n), pd.Index(['x']))
    asked = []

    class Copula:
        def sample(self, x_, n_, **k):
            asked.append((x_, n_, k))
            return U
    g.copula, g.additional_node, g.q_vect = Copula(), add, lv.al
    seed = sint('seed')
    io = symbolic('init', (n,)) if init else None
    first = (lambda r: lift(io.read(r))) if init else (lambda r: lift(0.))
    h.noise = []

    def init_rows(L, i):
        done = h.done_init if L.i is not None and i is not L.i else None
        # rows below i hold their initial observation plus a disturbance of at most a millionth
        e = L.noise = getattr(L, 'noise', None) or A.elementwise(lambda v: A.sminimum(A.smaximum(v, 0.), 1.), symbolic('disturbance', (n, s)))
        return dict(scenarios=Arr((n, d + 1, s), lambda r, c, j: ite(And(lift(r) < i, lift(c) == 0), first(r) + e.read(r, j) * 1e-6, 0.), 'f'))
    k0 = 1 if add else 0

    def rows(L, i):
        e = L.entry['scenarios'].snapshot()
        return dict(scenarios=Arr((n, d + k0, s), lambda r, c, j: ite(And(lift(r) < i, lift(c) >= k0), own(r, lift(c) - k0, j), e(r, c, j)), 'f'))
    from core import LoopSpec

    class Within(LoopSpec):
        """the invariant of the first loop: values of column 0 up to the disturbance"""
        def check(self, L, i, cur):
            v = as_arr(cur['scenarios'])
            q = v.snapshot()
            r, c, j = (S(sym.fresh(z3.IntSort(), 'e')) for _ in 'rcj')
            b = And(r >= 0, r < n, c >= 0, c < d + 1, j >= 0, j < s)
            e = lift(q(r, c, j)) - first(r)
            return [('scenarios', And(*[lift(x) == y for x, y in zip(v.shape, (n, d + 1, s))], Implies(b, ite(And(r < i, c == 0), And(e >= 0, e <= 1e-6), lift(q(r, c, j)) == 0))))]
    h.loop(F, ('ScenGen.sample_scenarios', 0), Within('initial observations set', init_rows, local=('t', 'init_o')))
    for k in (1, 2):
        h.loop(F, ('ScenGen.sample_scenarios', k), LoopSpec('rows done', rows, local=('t', 'copula_sample_t', 'quantiles_t')))
    out = g.sample_scenarios(x, s, Q, io, random_state=seed)
    h.ensure('shape', And(*[lift(a) == b for a, b in zip(out.shape, (n, d + k0, s))]))
    h.ensure('the copula is asked once, for these rows and this many scenarios', len(asked) == 1 and asked[0][0] is x and asked[0][2].get('random_state') is seed and bool(lift(asked[0][1]) == s))
    o = out.snapshot()
    near = lambda a, b, t: And(lift(a) - b <= t, b - lift(a) <= t)
    h.ensure('every row through its own quantile functions at its own samples', forall(lambda t: forall(lambda i: forall(lambda j: near(o(t, lift(i) + k0, j), own(t, i, j), 1e-6), (0, s)), (0, d)), (0, n)))
    if add:
        h.ensure('the first step is the initial observation', forall(lambda t: forall(lambda j: near(o(t, 0, j), first(t), 2e-6), (0, s)), (0, n)))


@contract('quantile tables become arrays by row, step and level', [FS + 'ScenGen.predict_scenarios'], W_scen('scen'), unbounded=False)
def tables(h):
    f = h.module(F)
    n = sint('rows', 1)
    ix = frame.time_index('t', n)
    for q, steps, form in (((.1, .5, .9), ('s0', 's1'), 'df'), ((.25, .75), ('a', 'b', 'c'), 'dfx'), ((.75, .125), (3, 1), 'df'), ((.5, .1), (3,), 'np')):
        cols = pd.MultiIndex.from_product([q, steps])
        df = frame.Frame([symbolic('q%s_%s' % c, (n,)) for c in cols], ix, cols)
        x = None if form == 'df' else frame.Frame([symbolic('x', (n,))], ix, pd.Index(['x']))
        cube = arr.stack([arr.stack([df.cl[i * len(steps) + j] for i in range(len(q))], 1) for j in range(len(steps))], 1)
        g = object.__new__(f.ScenGen)
        g.q_vect, got = np.array(q), []
        g.sample_scenarios = lambda x_, n_, qq, io, **k: got.append((x_, n_, qq, io, k)) or 'scenarios'
        io, s = symbolic('init', (n,)), sint('scenarios', 1)
        out = g.predict_scenarios(df if form != 'np' else cube, s, x, io, random_state=5)
        t = '%s, %d levels, %s: ' % (form, len(q), 'in order' if list(q) == sorted(q) else 'not in order')
        h.ensure(t + 'one request, returned as it is', out == 'scenarios' and len(got) == 1)
        x_, n_, qq, io_, k = got[0]
        h.ensure(t + 'every quantile at its row, step and level', equal_arrays(qq, cube))
        h.ensure(t + 'rows, number of scenarios, initial observations and seed handed on', And(x_.index.equal(ix), lift(n_) == s, io_ is io, k == dict(random_state=5), x is None or x_ is x))


# ---------------------------------------------------------------- trees
class Tree:
    """stands for a networkx tree: nodes 0..n-1, attributes per node"""
    def __init__(self, attrs, shared=None):
        self.attrs = attrs if shared is None else shared

    def __deepcopy__(self, memo):
        return Tree({k: v.copy() for k, v in self.attrs.items()})

    def __copy__(self):
        return Tree(None, self.attrs)

    copy = __deepcopy__ = lambda self, memo=None: Tree({k: v.copy() for k, v in self.attrs.items()})


class Values:
    """{node: value} of one attribute"""
    __pydv_sym__ = True

    def __init__(self, a):
        self.a = a

    def __pydv_len__(self):
        return self.a.shape[0]

    def values(self):
        a = self.a.snapshot()
        w = self.a
        return Seq(w.shape[0], (lambda i: Arr(w.shape[1:], lambda *r: a(i, *r), w.kind)) if w.ndim > 1 else lambda i: a(i))

    def keys(self):
        return Seq(self.a.shape[0], lambda i: i)

    def items(self):
        v = self.values()
        return Seq(v.n, lambda i: (i, v.fn(i)))

    def __getitem__(self, i):
        return self.values().fn(i)


class NX:
    @staticmethod
    def get_node_attributes(t, name, default=None):
        return Values(t.attrs[name])

    @staticmethod
    def set_node_attributes(t, values, name=None):
        s = values.items() if isinstance(values, load.SDict) else to_items(values)
        old = t.attrs[name]
        key = lambda i: s.fn(i)[0]
        if not bool(And(lift(s.n) == old.shape[0], forall(lambda i: lift(key(i)) == i, (0, s.n)))):
            raise Unsupported('attributes of some nodes only')
        t.attrs[name] = load.Seq(s.n, lambda i: s.fn(i)[1]).__pydv_array__()


def to_items(d):
    if isinstance(d, Values):
        return d.items()
    raise Unsupported('attribute values of an unknown kind')


def tree_of(h, name, steps, wide):
    n = sint('nodes_' + name, 1)
    t = symbolic('time_' + name, (n,), 'i')
    h.assume(forall(lambda i: And(t.read(i) >= 0, t.read(i) < steps), (0, n)))
    v, p = symbolic('value_' + name, (n, 1) if wide else (n,)), symbolic('prob_' + name, (n,))
    return Tree(dict(t=t, v=v, p=p))


def W_tree(h, m):
    return [dict(case='super', params=dict(seed=s, T=t, arr=s != 2)) for s, t in ((1, 3), (2, 4), (3, 5), (4, 2))] + [
        dict(case='tree', params=dict(seed=s, d=d, rows=96, q=[.1, .5, .9], tz=None, add=add, init=init, nodes=[1, 2, 4][:d], ask=ask, par=par, tree='ScenredTree')) for s, d, add, init, ask, par in ((1, 2, False, False, 5, False), (2, 3, True, True, 5, True), (3, 2, True, False, 2, False))]


def added(stored, tree, x):
    """tree is stored with x(t) added to every node of step t"""
    v0, t0, v1 = stored.attrs['v'], stored.attrs['t'], tree.attrs['v']
    n = v0.shape[0]
    a, t, b = v0.snapshot(), t0.snapshot(), v1.snapshot()
    z = (0,) if v0.ndim == 2 else ()
    return And(lift(v1.shape[0]) == n, v1.ndim == 2, forall(lambda i: lift(b(i, 0)) == lift(a(i, *z)) + x(t(i)), (0, n)))


@contract('adding the forecast to the values of the nodes', [FT + '_superimpose_signal_to_tree'], W_tree)
def add_values(h):
    f = h.module(T)
    d = sint('steps', 1)
    tr = tree_of(h, 'tree', d, False)
    t, v = tr.attrs['t'], tr.attrs['v']
    n = t.shape[0]
    x = symbolic('forecast', (d,))
    ts, vs, xs = t.snapshot(), v.snapshot(), x.snapshot()

    def done(L, i):
        return dict(tree_vals=Arr((n,), lambda r: lift(vs(r)) + ite(lift(pos(r)) < i, xs(ts(r)), 0.), 'f'))
    pos = A.unique(t, True)[1].snapshot()
    h.loop(T, ('_superimpose_signal_to_tree', 0), LoopSpec('steps done', done, local=('t',)))
    out = f._superimpose_signal_to_tree(t, x, v)
    h.ensure('the forecast of its own step is added to every node', equal_arrays(out, Arr((n,), lambda r: lift(vs(r)) + xs(ts(r)), 'f')))


def superpose_loop(h, tr):
    t, v = tr.attrs['t'], tr.attrs['v']
    n = t.shape[0]
    ts, vs = t.snapshot(), v.snapshot()
    pos = A.unique(t, True)[1].snapshot()

    def done(L, i):
        x = L.all['x'].snapshot()
        return dict(tree_vals=Arr(v.shape, lambda r, *c: lift(vs(r, *c)) + ite(lift(pos(r)) < i, x(ts(r)), 0.), 'f'))
    h.loop(T, ('_superimpose_signal_to_tree', 0), LoopSpec('steps done', done, local=('t',)))


def unchanged(tree, kept):
    return And(*[equal_arrays(tree.attrs[k], kept[k]) for k in kept])


def use_nx(h):
    h.loader.extra['networkx'] = NX
    h.loader.extra['networkx.drawing.nx_agraph'] = types.SimpleNamespace(graphviz_layout=None)


def row_of(h, name, d):
    x = symbolic(name, (d,))
    return types.SimpleNamespace(values=x, __len__=lambda: d), x


@contract('a forecast added to a tree', [FT + 'superimpose_signal_to_tree, replace_var, _superimpose_signal_to_tree'], W_tree)
def superpose(h):
    use_nx(h)
    f = h.module(T)
    d = sint('steps', 1)
    tr = tree_of(h, 'tree', d, True)
    kept = {k: v.copy() for k, v in tr.attrs.items()}
    superpose_loop(h, tr)
    row, x = row_of(h, 'forecast', d)
    out = f.superimpose_signal_to_tree(row, tr)
    h.ensure('the tree itself', out is tr)
    h.ensure('every node: its value plus the forecast of its own step', added(Tree(kept), out, x.snapshot()))
    h.ensure('steps and probabilities are unchanged', unchanged(out, {k: kept[k] for k in 'tp'}))


@contract('the forecast tree of one row', [FS + 'tree_gen', FT + 'superimpose_signal_to_tree'], W_tree)
def one_row(h):
    use_nx(h)
    f = h.module(F)
    d = sint('steps', 1)
    trees = {k: tree_of(h, 'tree%d' % k, d, True) for k in (0, 7, 23)}
    kept = {k: {a: v.copy() for a, v in t.attrs.items()} for k, t in trees.items()}
    row, x = row_of(h, 'forecast', d)
    got = {}
    for k in trees:
        superpose_loop(h, trees[k])
        out = f.tree_gen((types.SimpleNamespace(hour=k), row), trees)
        h.ensure('hour %d: the stored tree of its hour plus the forecast' % k, And(out is not trees[k], added(Tree(kept[k]), out, x.snapshot()), unchanged(out, {a: kept[k][a] for a in 'tp'})))
        h.ensure('hour %d: the stored trees are unchanged' % k, And(*[unchanged(trees[j], kept[j]) for j in trees]))


def forecast_trees(h, add, init, d):
    """rows of any number; the trees of a row are described by what tree_gen is asked for"""
    f = h.module(F)
    n = sint('rows', 1)
    ix = frame.time_index('t', n)
    wide = d is None
    d = sint('steps', 1) if wide else d
    P = table('forecast', n, ix, d if wide else ['t%d' % j for j in range(d)])
    pv = P.values.snapshot()
    g = object.__new__(f.ScenGen)
    g.online_tree_reduction, g.additional_node, g.parallel_preds, g.trees, g.k_max = False, add, False, {0: 'tree'}, 10
    k0 = 1 if add else 0
    io = symbolic('init', (n,)) if init else None

    def tree_gen(t, trees):
        """its contract: the stored tree of the hour of the row, plus the values of the row"""
        if trees is not g.trees:
            raise Unsupported('other trees')
        return (t[0].hour, t[1].values)
    f.tree_gen = tree_gen
    first = (lambda r: lift(io.read(r))) if init else (lambda r: lift(pv(r, 0)))
    want = lambda r: (S(frame.HOUR(numterm(ix.key(r)))), Arr((norm(lift(d) + k0),), lambda c: ite(lift(c) < k0, first(r), pv(r, lift(c) - k0)), 'f'))
    h.loop(F, ('ScenGen.predict_trees', 1), LoopSpec('rows done', lambda L, i: dict(trees=SList(i, want)), local=('t', 'nx_tree')))
    kept = P.copy()
    out = g.predict_trees(P, init_obs=io)
    h.ensure('one tree per row, of its hour, with the forecast of the row', same_value(out, Seq(n, want)))
    h.ensure('the forecast is unchanged', equal_arrays(P.values, kept.values))


contract('forecast trees of all rows', [FS + 'ScenGen.predict_trees'], W_tree)(lambda h: forecast_trees(h, False, False, None))
for _d in (1, 3):
    contract('forecast trees with an initial observation, %d steps' % _d, [FS + 'ScenGen.predict_trees'], W_tree, unbounded=False)(lambda h, d=_d: forecast_trees(h, True, True, d))
    contract('forecast trees with an additional node, %d steps' % _d, [FS + 'ScenGen.predict_trees'], W_tree, unbounded=False)(lambda h, d=_d: forecast_trees(h, True, False, d))


@contract('forecast trees of one piece of the rows', [FS + 'tree_gen_chunk'], W_tree)
def chunk(h):
    f = h.module(F)
    n, d = sint('rows', 1), sint('steps', 1)
    ix = frame.time_index('t', n)
    P = table('forecast', n, ix, d)
    trees = {0: 'tree'}
    pv = P.values.snapshot()

    def tree_gen(t, tr):
        if tr is not trees:
            raise Unsupported('other trees')
        return (t[0].hour, t[1].values)
    f.tree_gen = tree_gen
    want = lambda r: (S(frame.HOUR(numterm(ix.key(r)))), Arr((d,), lambda c: pv(r, c), 'f'))
    h.loop(F, ('tree_gen_chunk', 0), LoopSpec('rows done', lambda L, i: dict(nx_trees=SList(i, want)), local=('t', 'nx_tree')))
    out = f.tree_gen_chunk(P, trees)
    h.ensure('one tree per row, of its hour, with the forecast of the row', same_value(out, Seq(n, want)))
