"""C14: scenarios are the predicted quantile function at the copula samples; forecast trees are stored trees plus the point forecast."""
from common import *
from copy import deepcopy
import networkx as nx
import pyforecaster.scenarios_generator as SG
from pyforecaster.scenred import superimpose_signal_to_tree
from pyforecaster.forecaster import LinearForecaster
import C18


def ref_interp(u, q, alphas):
    """piecewise linear through (alphas, q), first and last segment extended"""
    k = int(np.clip(np.searchsorted(alphas, u, side='right') - 1, 0, len(alphas) - 2))
    return q[k] + (u - alphas[k]) * (q[k + 1] - q[k]) / (alphas[k + 1] - alphas[k])


def draw(p):
    g = np.random.default_rng(p['seed'])
    nq, d, S, n = p['nq'], p['d'], p['S'], p['n']
    al = np.sort(g.choice(np.arange(1, 100), nq, replace=False)) / 100.
    q = np.sort(g.normal(size=(n, d, nq)) * p['scale'], axis=2) + p['off']
    if p['flat']:
        q[..., 1] = q[..., 0]
    u = g.uniform(size=(n, d, S))
    u.flat[:: 5] = g.choice(al, size=u.flat[:: 5].shape)
    return g, al, q, u


def check_row(vals, q, u, al, what, tol=1e-7):
    for j in range(q.shape[0]):
        exp = [ref_interp(w, q[j], al) for w in u[j]]
        t = tol * max(1, np.abs(q[j]).max(), np.abs(exp).max())
        check(np.abs(vals[j] - exp).max() <= t, '%s: step %d is %s, the quantile function at the samples is %s' % (what, j, vals[j][:4], exp[:4]))
        o = np.argsort(u[j])
        check((np.diff(vals[j][o]) >= -2 * t).all(), '%s: step %d is not monotone in the copula value' % (what, j))
        for w, v in zip(u[j], vals[j]):
            if al[0] <= w <= al[-1]:
                k = int(np.clip(np.searchsorted(al, w, side='right') - 1, 0, len(al) - 2))
                check(q[j][k] - t <= v <= q[j][k + 1] + t, '%s: value %s outside the adjacent quantiles' % (what, v))


def run_interp(p):
    g, al, q, u = draw(p)
    kq, ku = q.copy(), u.copy()
    for i in range(p['n']):
        out = SG.interp_scens(u[i], q[i], al)
        check(out.shape == u[i].shape, 'interpolated scenarios have shape %s' % (out.shape,))
        check_row(out, q[i], u[i], al, 'row %d' % i, 1e-10)
    check(np.array_equal(q, kq) and np.array_equal(u, ku), 'interpolation changed its arguments')
    return ['interp', p['nq'], p['d'], p['flat']]


def gen_interp(rng, i, tier):
    return dict(seed=rng.randrange(10**6), nq=rng.choice([2, 3, 5, 11]), d=rng.choice([1, 2, 4]), S=rng.choice([1, 2, 9]), n=rng.choice([1, 2, 5]), scale=rng.choice([1, 100., .01]), off=rng.choice([0, 20.]), flat=rng.random() < .2,
                form=rng.choice(['np', 'df', 'dfx']), add=rng.random() < .4, init=rng.random() < .7)


class Fixed:
    """copula stand-in: returns the given samples in row order"""
    def __init__(self, u):
        self.u = u

    def sample(self, x, n, **k):
        assert len(x) == self.u.shape[0]
        return self.u[:, :, :n].copy()


def run_scen(p):
    g, al, q, u = draw(p)
    n, d = q.shape[:2]
    idx = pd.date_range('2021-01-01', periods=n, freq='5h')[g.permutation(n)]
    x = pd.DataFrame(g.normal(size=(n, 2)), index=idx)
    sg = SG.ScenGen(q_vect=al, additional_node=p['add'])
    sg.copula = Fixed(u)
    init = g.normal(size=n) * 5 + 30 if p['init'] and p['add'] else None
    if p['form'] == 'np':
        out = quiet(sg.predict_scenarios, q.copy(), n_scen=p['S'], x=x, init_obs=init)
    else:
        df = pd.concat({a: pd.DataFrame(q[:, :, k], index=idx, columns=['s%d' % j for j in range(d)]) for k, a in enumerate(al)}, axis=1)
        out = quiet(sg.predict_scenarios, df, n_scen=p['S'], x=x if p['form'] == 'dfx' else None, init_obs=init)
    check(out.shape == (n, d + int(p['add']), p['S']), 'scenarios have shape %s' % (out.shape,))
    if p['add']:
        ref = np.zeros(n) if init is None else init
        check(np.abs(out[:, 0, :] - ref[:, None]).max() < 1e-5, 'first step is %s, the initial observation is %s' % (out[:, 0, 0], ref))
        out = out[:, 1:, :]
    for i in range(n):
        check_row(out[i], q[i], u[i], al, 'row %d' % i)
    return ['scen', p['form'], p['add'], p['init'], d]


def linear(p, **kw):
    g = np.random.default_rng(p['seed'])
    n, d = p['rows'], p['d']
    idx = pd.date_range('2021-05-01', periods=n, freq='1h', tz=p['tz'])
    x = pd.DataFrame(g.normal(size=(n, 3)), index=idx, columns=list('abc'))
    y = pd.DataFrame(x.values @ g.normal(size=(3, d)) + g.normal(size=(n, d)) * np.linspace(.4, 1, d), index=idx, columns=['t%d' % j for j in range(d)])
    m = LinearForecaster(q_vect=np.array(p['q']), n_scen_fit=12, **kw)
    np.random.seed(p['seed'])
    quiet(m.fit, x, y)
    return g, m, x, y


def run_fore(p):
    """a forecaster's scenarios go through its own quantile forecast"""
    g, m, x, y = linear(p, additional_node=p['add'])
    r = x.iloc[g.permutation(len(x))[:p['ask']]]
    u = g.uniform(size=(len(r), p['d'], 6))
    m.scengen.copula = Fixed(u)
    q = quiet(m.predict_quantiles, r, dataframe=False)
    out = quiet(m.predict_scenarios, r, n_scen=6)
    check(out.shape == (len(r), p['d'] + int(p['add']), 6), 'scenarios have shape %s' % (out.shape,))
    for i in range(len(r)):
        check_row(out[i][int(p['add']):], q[i], u[i], np.array(p['q']), 'row %d' % i)
    return ['fore', p['add'], p['d'], p['ask']]


def attrs(t):
    return {k: nx.get_node_attributes(t, k) for k in ('t', 'p')}, {k: float(np.ravel(v)[0]) for k, v in nx.get_node_attributes(t, 'v').items()}, sorted(map(tuple, t.edges))


def check_super(stored, tree, sig, what):
    """sig: value to add at each step"""
    a, b = attrs(stored), attrs(tree)
    check(a[2] == b[2] and a[0] == b[0], what + ': structure or probabilities of the forecast tree differ from the stored tree')
    for n, v in b[1].items():
        e = a[1][n] + sig[a[0]['t'][n]]
        check(abs(v - e) <= 1e-8 * max(1, abs(e)), '%s: node %s at step %d is %s, stored value plus forecast is %s' % (what, n, a[0]['t'][n], v, e))


def run_tree(p):
    kw = dict(online_tree_reduction=False, additional_node=p['add'], tree_type=p['tree'], parallel_preds=p['par'], nodes_at_step=np.array(p['nodes']))
    g, m, x, y = linear(p, **kw)
    r = x.iloc[g.permutation(len(x))[:p['ask']]]
    stored = deepcopy(m.scengen.trees)
    init = g.normal(size=len(r)) + 40 if p['init'] and p['add'] else None
    with C18.backends():
        trees = quiet(m.predict_trees, r, init_obs=init)
    trees = trees if isinstance(trees, list) else [trees]
    pred = quiet(m.predict, r)
    check(len(trees) == len(r), '%d trees for %d rows' % (len(trees), len(r)))
    for h in stored:
        check(attrs(stored[h]) == attrs(m.scengen.trees[h]), 'the stored tree of hour %s changed' % h)
    for i, t in enumerate(trees):
        sig = list(pred.iloc[i].values)
        if p['add']:
            sig = [sig[0] if init is None else init[i]] + sig
        st = stored[r.index[i].hour]
        check_super(st, t, sig, 'row %d' % i)
        if p['add']:
            root = [k for k, v in nx.get_node_attributes(t, 't').items() if v == 0]
            val = float(np.ravel(t.nodes[root[0]]['v'])[0])
            check(len(root) == 1 and abs(val - sig[0]) < 1e-4, 'root is %s, the initial observation is %s' % (val, sig[0]))
    return ['tree', p['tree'], p['add'], p['par'], p['init'], min(p['ask'], 2)]


def gen_tree(rng, i, tier):
    d = rng.choice([2, 3, 4])
    nodes = [1]
    for _ in range(d - 1):
        nodes.append(nodes[-1] * rng.choice([1, 2]))
    add = rng.random() < .5
    return dict(seed=rng.randrange(10**6), d=d, rows=rng.choice([96, 150]), q=[.1, .5, .9], tz=rng.choice([None, 'Europe/Zurich']), add=add, init=rng.random() < .7, nodes=nodes,
                ask=rng.choice([1, 2, 5, 9]), par=i % 4 == 3, tree=rng.choice(['ScenredTree', 'QuantileTree']))


def gen_fore(rng, i, tier):
    return dict(gen_tree(rng, i, tier), q=rng.choice([[.1, .5, .9], [.05, .3, .6, .95], [.2, .8]]), d=rng.choice([1, 2, 4]))


def run_super(p):
    g = np.random.default_rng(p['seed'])
    t = nx.DiGraph()
    T = p['T']
    t.add_node(0, t=0, p=1., v=np.atleast_1d(g.normal()))
    last, k = [0], 1
    for s in range(1, T):
        new = []
        for par in last:
            for _ in range(int(g.integers(1, 3))):
                t.add_node(k, t=s, p=float(g.uniform()), v=np.atleast_1d(g.normal()) if p['arr'] else float(g.normal()))
                t.add_edge(par, k)
                new.append(k)
                k += 1
        last = new
    if not p['arr']:
        t.nodes[0]['v'] = float(t.nodes[0]['v'][0])
    keep = deepcopy(t)
    sig = pd.Series(g.normal(size=T) * 10, index=['t%d' % j for j in range(T)])
    k2 = sig.copy()
    out = superimpose_signal_to_tree(sig, deepcopy(t))
    check_super(keep, out, list(sig.values), 'superimposed tree')
    check(sig.equals(k2), 'the signal of the caller changed')
    return ['super', T, p['arr']]


def gen_super(rng, i, tier):
    return dict(seed=rng.randrange(10**6), T=rng.randint(1, 6), arr=rng.random() < .6)


def run_online(p):
    """trees built on line come from the scenarios, and start at the initial observation"""
    g, m, x, y = linear(p, additional_node=True)
    r = x.iloc[g.permutation(len(x))[:p['ask']]]
    init = g.normal(size=len(r)) + 40
    trees = quiet(m.predict_trees, r, n_scen=20, init_obs=init, nodes_at_step=np.array(p['nodes']) * 2)
    trees = trees if isinstance(trees, list) else [trees]
    for i, t in enumerate(trees):
        st = nx.get_node_attributes(t, 't')
        root = [k for k, v in st.items() if v == 0]
        val = float(np.ravel(t.nodes[root[0]]['v'])[0])
        check(len(root) == 1 and abs(val - init[i]) < 1e-4, 'root is %s, the initial observation is %s' % (val, init[i]))
        check(max(st.values()) == p['d'], 'tree reaches step %d, forecast has %d steps plus the initial one' % (max(st.values()), p['d']))
    return ['online', p['d'], p['ask']]


RULE = 'random quantile levels and functions, copula values including the levels themselves, layouts, initial nodes, stored trees, back ends; distinct = distinct (path, layout, node, steps)'
CASES = [Case('interp', gen_interp, run_interp, 80, 1500, rule=RULE), Case('scen', gen_interp, run_scen, 60, 900, rule=RULE), Case('fore', gen_fore, run_fore, 10, 120, rule=RULE), Case('tree', gen_tree, run_tree, 16, 200, rule=RULE),
         Case('super', gen_super, run_super, 30, 500, rule=RULE), Case('online', gen_tree, run_online, 4, 50, rule=RULE)]
