"""C12: scenario reduction on the real function: probabilities, parents, values, node counts."""
from common import *
import networkx as nx
from pyforecaster.scenred import scenred, retrieve_scenarios_indexes


def scens(p):
    g = np.random.default_rng(p['seed'])
    T, n, k = p['T'], p['n'], p['nv']
    s = g.normal(size=(T, n, k)) * p['scale']
    if p['kind'] == 'walk':
        s = np.cumsum(s, axis=0)
    elif p['kind'] == 'int':
        s = np.round(s)
    elif p['kind'] == 'night':           # the same value for everybody at some steps
        for t in range(T):
            if g.random() < .5:
                s[t] = 0.
    elif p['kind'] == 'dup':             # repeated scenarios
        s = s[:, g.integers(0, max(n // 2, 1), n)]
    elif p['kind'] == 'first':
        s[0] = 1.
    return (s[:, :, 0] if k == 1 and p['flat'] else s), g


def check_tree(tree, s3, cap, what):
    T = s3.shape[0]
    t = nx.get_node_attributes(tree, 't')
    p = nx.get_node_attributes(tree, 'p')
    v = nx.get_node_attributes(tree, 'v')
    N = set(tree.nodes)
    check(set(t) == N and set(p) == N and set(v) == N and len(N) > 0, what + ': nodes without time, probability or value')
    for step in range(T):
        at = [n for n in N if t[n] == step]
        check(len(at) >= 1, '%s: no node at step %d' % (what, step))
        check(abs(sum(p[n] for n in at) - 1) < 1e-9, '%s: probability at step %d is %s' % (what, step, sum(p[n] for n in at)))
        if cap is not None:
            check(len(at) <= max(1, cap[step]) if step else len(at) == 1, '%s: %d nodes at step %d, %s requested' % (what, len(at), step, cap[step]))
        for n in at:
            val = np.atleast_1d(v[n])
            check((s3[step] == val).all(axis=1).any(), '%s: node %s at step %d has value %s which no scenario takes there' % (what, n, step, val))
            pre, suc = list(tree.predecessors(n)), list(tree.successors(n))
            check(len(pre) == (0 if step == 0 else 1), '%s: node %s at step %d has %d parents' % (what, n, step, len(pre)))
            if pre:
                check(t[pre[0]] == step - 1, '%s: parent of a node at step %d is at step %s' % (what, step, t[pre[0]]))
            if suc:
                check(abs(p[n] - sum(p[c] for c in suc)) < 1e-9, '%s: node %s has probability %s, its children %s' % (what, n, p[n], sum(p[c] for c in suc)))
            else:
                check(step == T - 1, '%s: leaf %s at step %d of %d' % (what, n, step, T))
            check(p[n] > 0, what + ': node with no probability')
    check(all(0 <= t[n] < T for n in N), what + ': node outside the horizon')


def run_red(p):
    s, g = scens(p)
    T, n = s.shape[:2]
    keep = s.copy()
    cap = None
    kw = {}
    if p['mode'] == 'nodes':
        cap = np.sort(g.integers(1, p['kmax'] + 1, T))
        cap[0] = 1
        kw['nodes'] = cap.copy()
    elif p['mode'] == 'ones':
        cap = np.ones(T, int)
        kw.update(nodes=cap.copy(), tol=p['tol'])
    elif p['mode'] == 'tol':
        kw['tol'] = p['tol']
    elif p['mode'] == 'big':
        cap = np.full(T, n + 3)
        cap[0] = 1
        kw['nodes'] = cap.copy()
    S, P, J, Me, tree = quiet(scenred, s, metric=p['metric'], **kw)
    check(np.array_equal(s, keep), 'the scenarios of the caller were modified')
    s3 = keep[:, :, None] if keep.ndim == 2 else keep
    check(np.allclose(P.sum(axis=1), 1), 'probability table sums to %s' % P.sum(axis=1))
    check((P >= 0).all(), 'negative probability')
    for t in range(T):
        alive = P[t] > 0
        if cap is not None:
            check(alive.sum() <= max(1, cap[t]), '%d branches at step %d, %s requested' % (alive.sum(), t, cap[t]))
        check(J[t].sum() == alive.sum() if J.shape[1] == n else True, 'presence table disagrees with the probabilities at step %d' % t)
        for j in range(S.shape[1]):
            check((s3[t] == S[t, j]).all(axis=1).any(), 'reduced scenario %d takes a value at step %d which no scenario takes there' % (j, t))
    check_tree(tree, s3, cap, 'tree')
    idx, leaves = retrieve_scenarios_indexes(tree)
    check(len(leaves) == sum(1 for q in tree.nodes if tree.out_degree(q) == 0), 'paths retrieved for %d leaves' % len(leaves))
    for j in range(idx.shape[1]):
        for t in range(1, T):
            check(tree.has_edge(idx[t - 1, j], idx[t, j]), 'retrieved path is not a path of the tree')
    return ['red', p['mode'], p['kind'], p['metric'], p['nv'], T]


def gen_red(rng, i, tier):
    return dict(seed=rng.randrange(10**6), T=rng.choice([1, 2, 3, 5, 9]), n=rng.choice([1, 2, 3, 8, 20, 33]), nv=rng.choice([1, 1, 2]), flat=rng.random() < .5, scale=rng.choice([1., 1e-3, 100.]),
                kind=rng.choice(['iid', 'walk', 'int', 'night', 'dup', 'first']), mode=rng.choice(['nodes', 'nodes', 'nodes', 'ones', 'tol', 'big']), metric=rng.choice(['cityblock', 'euclidean']),
                kmax=rng.choice([1, 3, 8, 40]), tol=rng.choice([.01, 1, 10]))


def run_class(p):
    from pyforecaster.tree_builders import ScenredTree
    s, g = scens(dict(p, nv=1, flat=True))
    T, n = s.shape
    cap = np.sort(g.integers(1, p['kmax'] + 1, T))
    cap[0] = 1
    keep = s.copy()
    c = cap
    if p['short'] and T > 2:
        c = cap[1:]
        cap = np.hstack([1, c])
        cap[0] = 1
    tree, ts, ti, tv = quiet(ScenredTree(nodes_at_step=c.copy()).gen_tree, s)
    check(np.array_equal(s, keep), 'the scenarios of the caller were modified')
    check_tree(tree, keep[:, :, None], cap, 'ScenredTree')
    v = nx.get_node_attributes(tree, 'v')
    for j in range(ti.shape[1]):
        check([float(np.ravel(v[q])[0]) for q in ti[:, j]] == [float(q) for q in np.asarray(ts)[:, j]], 'tree scenarios are not the values along the paths')
    return ['class', T, n, p['short'], p['kind']]


def gen_class(rng, i, tier):
    d = gen_red(rng, i, tier)
    T = rng.choice([2, 3, 5, 9])
    d.update(T=T, n=rng.choice([2, 3, 8, 20, T + 1, T + 1, T]), short=rng.random() < .3)
    return d


RULE = 'random scenario sets (independent, walks, integer valued, constant at some steps, repeated), node counts or tolerance, metrics; distinct = distinct (mode, kind, metric, variables, steps)'
CASES = [Case('red', gen_red, run_red, 100, 1500, rule=RULE), Case('class', gen_class, run_class, 40, 600, rule=RULE)]
