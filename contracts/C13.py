"""C13: quantile trees for every set of scenarios (any number, any values); the lists of nodes per step are enumerated."""
from core import *
from core import _fn
import types, itertools
import numpy as np, networkx as nx
import arr as A
import re
from sym import fresh, REAL, INT
ASSUMPTIONS = ['the lists of nodes per step are enumerated (up to five steps and 16 leaves; up to three steps and four nodes for the values); the scenarios are of any number and value',
               'a quantile of a non-empty sample at a level between zero and one lies between any bounds of the sample', 'networkx is the installed one, executed on the concrete tree',
               'real arithmetic instead of floating point', 'numpy operations as modelled in pydv/arr.py']
F = 'pyforecaster.tree_builders'
FT = 'pyforecaster/tree_builders.py: '
FS = 'pyforecaster/scenred.py: '


def W(h, m):
    out = []
    for i, (nodes, n, kind, how) in enumerate([([1, 2, 4], 10, 'ramp', 'init'), ([1, 3, 3, 6], 25, 'walk', 'call'), ([1, 1, 2], 8, 'ramp', 'first'), ([1, 2, 2, 4], 12, 'ramp', 'short'), ([1, 1], 5, 'int', 'init'), ([1], 4, 'iid', 'init'), ([1, 2, 4, 8, 8, 24], 60, 'ramp', 'init')]):
        out.append(dict(case='tree', params=dict(seed=i, T=len(nodes), n=n, nodes=nodes, scale=50., kind=kind, how=how)))
    return out


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


def use(h):
    h.loader.extra['networkx'] = nx
    h.loader.extra['networkx.drawing.nx_agraph'] = types.SimpleNamespace(graphviz_layout=None)
    return h.module(F)


def shapes(small):
    full = [[1], [1, 1], [1, 2], [1, 3], [1, 1, 2], [1, 1, 1]]
    wide = [[1, 2, 2], [1, 2, 4], [1, 3, 3]]
    return full if small else full + wide + [[1, 7], [1, 2, 6, 6], [1, 4, 4, 8], [1, 2, 4, 8, 16], [1, 1, 3, 6, 12], [1, 5, 10]]


def structure(h, tree, nodes):
    T = len(nodes)
    t, p = nx.get_node_attributes(tree, 't'), nx.get_node_attributes(tree, 'p')
    N = list(tree.nodes)
    h.ensure('every node has a step and a probability', lift(set(t) == set(N) and set(p) == set(N)))
    at = [[q for q in N if t[q] == s] for s in range(T)]
    h.ensure('the requested number of nodes at each step', lift([len(a) for a in at] == list(nodes) and sum(nodes) == len(N)))
    h.ensure('one parent, one step earlier; one root', lift(all(len(list(tree.predecessors(q))) == (t[q] > 0) and all(t[r] == t[q] - 1 for r in tree.predecessors(q)) for q in N)))
    h.ensure('the same number of children for the nodes of a step', lift(all(len({tree.out_degree(q) for q in a}) == 1 for a in at)))
    leaves = [q for q in N if tree.out_degree(q) == 0]
    h.ensure('leaves at the last step only', lift(all(t[q] == T - 1 for q in leaves)))
    below = {q: len([d for d in nx.descendants(tree, q) | {q} if tree.out_degree(d) == 0]) for q in N}
    h.ensure('probability: the fraction of the leaves below', And(*[abs(lift(p[q]) * len(leaves) - below[q]) <= lift(1e-9) for q in N]))
    return t, p, leaves


def paths(h, tree, idx, lv):
    t = nx.get_node_attributes(tree, 't')
    leaves = [q for q in tree.nodes if tree.out_degree(q) == 0]
    ref = set()
    for l in leaves:
        path = [l]
        while list(tree.predecessors(path[0])):
            path.insert(0, list(tree.predecessors(path[0]))[0])
        ref.add(tuple(path))
    got = [tuple(int(i) for i in np.asarray(idx)[:, j]) for j in range(np.asarray(idx).shape[1])]
    h.ensure('the retrieved paths are the root-to-leaf paths', lift(len(got) == len(ref) and set(got) == ref))
    if lv is not None:
        h.ensure('the retrieved leaves', lift(sorted(int(i) for i in lv) == sorted(leaves)))
    return got


def skeleton(nodes, how):
    @contract('skeleton and paths, nodes %s, %s' % (nodes, how), [FT + 'ScenarioTree.gen_init_tree', FS + 'retrieve_scenarios_indexes'], W)
    def run(h):
        f = use(h)
        s = symbolic('scens', (len(nodes) + (how == 'an initial node is added'), sint('n', 1)))
        arg = np.array(nodes)
        want = list(nodes)
        if how == 'an initial node is added':
            want = [1] + want
        if how == 'first count is not one':
            arg[0] = 9
        b = f.QuantileTree(nodes_at_step=None if how == 'at the call' else arg)
        keep = s.copy()
        tree = b.gen_init_tree(s, arg if how == 'at the call' else None)
        structure(h, tree, want)
        idx, lv = f.retrieve_scenarios_indexes(tree)
        paths(h, tree, idx, lv)
        h.ensure('scenarios of the caller unchanged', equal_arrays(s, keep))


for nodes in shapes(False):
    for how in ('at construction', 'at the call', 'first count is not one', 'an initial node is added'):
        skeleton(nodes, how)


def bounded_quantile(lo, hi, found):
    """a quantile of a sample whose members are all between bounds of one step lies between these bounds"""
    def rows_of(a):
        """the steps whose bounds hold for every member (the steps named in a member are tried first)"""
        sn, n = a.snapshot(), lift(a.shape[0])
        txt = str(lift(sn(S(fresh(INT, 'member')))).t)
        for t in sorted(range(len(lo)), key=lambda t: not re.search(r'\(%d,' % t, txt)):
            if sym.prove(list(ctx().path), forall(lambda j: And(lo[t] <= sn(j), sn(j) <= hi[t]), (0, n)), want_model=False).status == 'proved':
                return [t]
        return []

    def quantile(a, q, *r, **k):
        if r or k:
            raise Unsupported('quantile with options')
        a = A.as_arr(a)
        if a.ndim != 1:
            raise Unsupported('quantile of several axes')
        q = A.as_arr(q)
        if not all(isinstance(x, int) for x in q.shape) or q.ndim > 1:
            raise Unsupported('levels')
        levels = [q.scalar()] if q.ndim == 0 else [q.read(i) for i in range(q.shape[0])]
        steps, out = rows_of(a), []
        for l in levels:
            if sym.prove(list(ctx().path), And(lift(l) >= 0, lift(l) <= 1), want_model=False).status != 'proved':
                raise Unsupported('level of a quantile')
            v = S(fresh(REAL, 'quantile'))
            found.append((v, lift(a.shape[0])))
            for t in steps:
                ctx().assume(And(lo[t] <= v, v <= hi[t]))
            out.append(v)
        return out[0] if q.ndim == 0 else out

    def median(a, *r, **k):
        return quantile(a, .5, *r, **k)
    return quantile, median


def values(nodes, again):
    @contract('values, nodes %s%s' % (nodes, ', from a given tree' if again else ''), [FT + 'ScenarioTree.gen_tree, init_vals, gen_init_tree', FT + 'QuantileTree.gen_tree', FS + 'retrieve_scenarios_indexes'], W)
    def run(h):
        f = use(h)
        T, n = len(nodes), sint('n', 1)
        s = symbolic('scens', (T, n))
        lo, hi = [sreal('lo%d' % t) for t in range(T)], [sreal('hi%d' % t) for t in range(T)]
        for t in range(T):
            h.assume(forall(lambda i: And(lo[t] <= s.read(t, i), s.read(t, i) <= hi[t]), (0, n)))
        found = []
        quantile, median = bounded_quantile(lo, hi, found)
        f.np = NPWith(f.np, quantile=quantile, median=median, hstack=lambda l, h_=f.np.hstack: A.as_arr(h_(l)))
        keep = s.copy()
        b = f.QuantileTree(nodes_at_step=np.array(nodes))
        start = None
        if again:
            start = f.QuantileTree(nodes_at_step=np.array(nodes)).gen_init_tree(s)
            v = {q: np.atleast_1d(-77.) for q in start.nodes}
            nx.set_node_attributes(start, v, name='v')
        tree, ts, ti, tv = b.gen_tree(s, start_tree=start)
        t, p, leaves = structure(h, tree, nodes)
        got = paths(h, tree, ti, None)
        v = nx.get_node_attributes(tree, 'v')
        h.ensure('every node has a value', lift(set(v) == set(tree.nodes)))
        for q in tree.nodes:
            x = A.as_arr(v[q])
            x = x.scalar() if x.ndim == 0 else x.read(*[0] * x.ndim)
            h.ensure('value of node %d within the scenarios of its own step' % q, And(lo[t[q]] <= x, x <= hi[t[q]]))
            for j, path in enumerate(got):
                if q in path:
                    h.ensure('value of node %d along path %d' % (q, j), same(ts.read(t[q], j), x))
        for x, k in found:
            h.ensure('quantiles of at least one scenario', k > 0)
        h.ensure('scenarios of the caller unchanged', equal_arrays(s, keep))
        if again:
            h.ensure('the given tree is unchanged', lift(tree is not start and all(float(np.ravel(x)[0]) == -77. for x in nx.get_node_attributes(start, 'v').values())))


for nodes in shapes(True):
    for again in (False, True):
        values(nodes, again)
