"""C13: quantile trees on the real class: shape, probabilities, values, retrieved paths."""
from common import *
import networkx as nx
from pyforecaster.tree_builders import QuantileTree
from pyforecaster.scenred import retrieve_scenarios_indexes, get_nodes_per_time_from_tree


def scens(p):
    g = np.random.default_rng(p['seed'])
    s = g.normal(size=(p['T'], p['n'])) * p['scale']
    if p['kind'] == 'walk':
        s = np.cumsum(s, axis=0)
    elif p['kind'] == 'ramp':            # the ranges of two steps do not overlap
        s = s + 1e3 * p['scale'] * np.arange(p['T'])[:, None]
    elif p['kind'] == 'int':
        s = np.round(s)
    elif p['kind'] == 'const':
        s[g.integers(0, p['T'])] = 2.
    return s, g


def check_tree(tree, ts, ti, s, nodes):
    T, n = s.shape
    t = nx.get_node_attributes(tree, 't')
    p = nx.get_node_attributes(tree, 'p')
    v = {k: float(np.ravel(x)[0]) for k, x in nx.get_node_attributes(tree, 'v').items()}
    N = sorted(tree.nodes)
    check(set(v) == set(N) and set(t) == set(N) and set(p) == set(N), 'nodes without time, probability or value')
    leaves = [q for q in N if tree.out_degree(q) == 0]
    for step in range(len(nodes)):
        at = [q for q in N if t[q] == step]
        check(len(at) == nodes[step], '%d nodes at step %d, %d requested' % (len(at), step, nodes[step]))
        k = set(tree.out_degree(q) for q in at)
        check(len(k) == 1 and (step == len(nodes) - 1) == (k == {0}), 'nodes at step %d have %s children' % (step, sorted(k)))
        for q in at:
            pre = list(tree.predecessors(q))
            check(len(pre) == (step > 0) and all(t[r] == step - 1 for r in pre), 'node %s at step %d has parents %s' % (q, step, pre))
    check(set(t.values()) == set(range(len(nodes))), 'tree has steps %s' % sorted(set(t.values())))
    for q in N:
        below = len([d for d in nx.descendants(tree, q) | {q} if tree.out_degree(d) == 0])
        check(abs(p[q] - below / len(leaves)) < 1e-9, 'node %s has probability %s with %d of %d leaves below' % (q, p[q], below, len(leaves)))
    check(abs(p[[q for q in N if t[q] == 0][0]] - 1) < 1e-12, 'root probability is not one')
    # values: quantiles of the scenarios which follow the branch, at the node's own step
    for q in N:
        lo, hi = s[t[q]].min(), s[t[q]].max()
        tol = 1e-9 * max(1, abs(lo), abs(hi))
        check(lo - tol <= v[q] <= hi + tol, 'node %s at step %d has value %s outside the scenario range [%s, %s] of its step' % (q, t[q], v[q], lo, hi))
    root = [q for q in N if t[q] == 0][0]
    check(close(v[root], np.median(s[0])), 'root value is %s, median is %s' % (v[root], np.median(s[0])))
    filt = {root: np.arange(n)}
    for q in N:
        ch = list(tree.successors(q))
        if not ch or q not in filt:
            continue
        x = s[t[q] + 1, filt[q]]
        ref = [np.quantile(x, (i + 1) / (len(ch) + 1)) for i in range(len(ch))]
        got = [v[c] for c in ch]
        check(close(sorted(got), ref), 'children of node %s (step %d) have values %s, quantiles are %s' % (q, t[q], got, ref))
        edges = [np.quantile(x, i / len(ch)) for i in range(len(ch) + 1)]
        for i, c in enumerate(ch):
            f = filt[q][(x > edges[i] - 1e-6) & (x <= edges[i + 1])]
            filt[c] = f if len(f) else filt[q]
    # retrieved paths
    idx, lv = retrieve_scenarios_indexes(tree)
    check(np.array_equal(idx, np.asarray(ti)), 'returned paths differ from the retrieved paths')
    paths = set()
    for l in leaves:
        path = [l]
        while t[path[0]] > 0:
            path.insert(0, list(tree.predecessors(path[0]))[0])
        paths.add(tuple(path))
    got = [tuple(int(i) for i in idx[:, j]) for j in range(idx.shape[1])]
    check(len(got) == len(set(got)) and set(got) == paths, 'retrieved paths are not the root-to-leaf paths')
    check(sorted(int(l) for l in lv) == sorted(leaves), 'retrieved leaves differ')
    for j, path in enumerate(got):
        check(close(np.asarray(ts)[:, j], [v[q] for q in path]), 'tree scenario %d is not the values along its path' % j)


def gen_tree(rng, i, tier):
    T = rng.choice([1, 2, 3, 4, 6])
    ks = [1]
    for _ in range(T - 1):
        ks.append(ks[-1] * rng.choice([1, 1, 2, 3] if ks[-1] < 12 else [1, 1, 2]))
    n = rng.choice([10, 25, 60, T, T + 1, len(ks) + 1, 8])
    return dict(seed=rng.randrange(10**6), T=T, n=max(n, 3), nodes=ks, scale=rng.choice([1., 50., 1e-2]), kind=rng.choice(['iid', 'walk', 'ramp', 'int', 'const']), how=rng.choice(['init', 'call', 'short', 'first']))


def run_tree(p):
    s, g = scens(p)
    nodes = list(p['nodes'])
    keep = s.copy()
    arg = np.array(nodes)
    if p['how'] == 'short' and p['T'] > 2:
        # one value less than the steps: an initial node is added in front
        if len(nodes) > 1:
            arg = np.array(nodes[1:])
            arg = (arg // arg[0]) if all(a % arg[0] == 0 for a in arg) else arg
            nodes = [1] + list(arg)
    elif p['how'] == 'first' and p['T'] > 1:
        arg = arg.copy()
        arg[0] = 7
    tb = QuantileTree(nodes_at_step=None if p['how'] == 'call' else arg)
    tree, ts, ti, tv = quiet(tb.gen_tree, s, nodes_at_step=arg if p['how'] == 'call' else None)
    check(np.array_equal(s, keep), 'the scenarios of the caller were modified')
    check_tree(tree, ts, ti, s, nodes)
    # a second tree from the first: same structure, values of the new scenarios, first tree untouched
    v0 = dict(tree.nodes('v'))
    s2 = s * 2 + 100
    tree2, ts2, ti2, _ = quiet(tb.gen_tree, s2, start_tree=tree)
    check_tree(tree2, ts2, ti2, s2, nodes)
    check(dict(tree.nodes('v')) == v0, 'building a tree from another one changed the latter')
    return ['tree', p['how'], p['kind'], p['T'], p['nodes'][-1]]


def gen_default(rng, i, tier):
    return dict(seed=rng.randrange(10**6), T=rng.choice([2, 4, 12, 24]), n=rng.choice([8, 16, 40, 100]), scale=1., kind='walk')


def run_default(p):
    s, g = scens(p)
    tree, ts, ti, tv = quiet(QuantileTree().gen_tree, s)
    t = nx.get_node_attributes(tree, 't')
    nodes = [sum(1 for q in t.values() if q == k) for k in range(p['T'])]
    check_tree(tree, ts, ti, s, nodes)
    return ['default', p['T'], p['n']]


RULE = 'random node counts (each a multiple of the previous), numbers of scenarios including steps and steps + 1, scenario kinds; distinct = distinct (how given, kind, steps, leaves)'
CASES = [Case('tree', gen_tree, run_tree, 80, 1200, rule=RULE), Case('default', gen_default, run_default, 6, 60, rule=RULE)]
