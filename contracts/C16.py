"""C16: reconciled forecasts add up along the hierarchy and stay on their series, for all tables, residuals and covariances."""
from core import *
import types
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['real arithmetic instead of floating point', 'numpy.linalg.inv returns an inverse of the matrix it is given (the matrices inverted have one: precondition)',
               'covariance estimators return arbitrary matrices of the size of their data', 'hierarchies and orders of the series are enumerated; rows, values and residuals are arbitrary', 'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
R = 'pyforecaster.reconciliation.reconciliation'
PR = 'pyforecaster/reconciliation/reconciliation.py: '
TREES = {'one level': {'all': ['b', 'a']}, 'two levels': {'all': ['north', 'south'], 'north': ['b', 'a'], 'south': ['d', 'c']},
         'uneven, inner first': {'zone': ['z', 'x'], 'all': ['zone', 'y']}, 'three levels': {'t': ['m', 'd'], 'm': ['l', 'c'], 'l': ['b', 'a']}, 'numbered series': {'sum': [2, 0, 1]}}


def leaves(h, k):
    return [k] if k not in h else [l for c in h[k] for l in leaves(h, c)]


def orders(tree):
    """series above first, below first, mixed"""
    b = sorted({l for k in tree for l in leaves(tree, k)}, key=str)
    up = list(tree)
    mix = [x for p in zip(b, up[::-1]) for x in p]
    mix = mix + [x for x in b + up if x not in mix]
    return [up + b, b[::-1] + up, mix[::-1]]


def W(h, m):
    return [dict(case='unit', params=dict(seed=s, nb=nb, maxagg=ma, intnames=i, shuffle_h=True, shuffle_c=True, n=30, method=me)) for me in ('dummy', 'minT', 'bayes') for s, nb, ma, i in ((1, 2, 1, False), (2, 4, 2, False), (3, 6, 4, True), (4, 3, 2, False))]


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


def data(name, n, idx, cols):
    return frame.Frame([symbolic('%s_%d' % (name, i), (n,)) for i, _ in enumerate(cols)], idx, pd.Index(cols, dtype=object))


def coherent(tree, name, n, idx, cols):
    """every aggregated series is the sum of the series below it"""
    b = {c: symbolic('%s_%s' % (name, c), (n,)) for c in cols if c not in tree}
    s = {c: b[c].snapshot() for c in b}
    col = lambda c: A.Arr((n,), lambda i: sum((s[l](i) for l in leaves(tree, c)[1:]), s[leaves(tree, c)[0]](i)), 'f')
    return frame.Frame([b[c] if c in b else col(c) for c in cols], idx, pd.Index(cols, dtype=object))


def adds_up(h, tag, rec, tree, n):
    for k in tree:
        for what, parts in (('series below', leaves(tree, k)), ('children', tree[k])):
            rd = [A.as_arr(rec[c].values) for c in parts]
            a = A.as_arr(rec[k].values)
            h.ensure('%s: %s is the sum of its %s' % (tag, k, what), forall(lambda i: same(a.read(i), sum((r.read(i) for r in rd[1:]), rd[0].read(i))), (0, n)))


def reconciliation(h, tree, method, at_fit, at_use):
    m = h.module(R)
    C = m.HierarchicalReconciliation
    inv, pre = [], []

    def inverse(M):
        M = A.as_arr(M)
        k = norm(M.shape[0])
        W = symbolic('inverse%d' % len(inv), (k, k))
        inv.append((M, W))
        return W
    m.np = NPWith(m.np, linalg=types.SimpleNamespace(inv=inverse, solve=lambda a, b: A.matmul(inverse(a), A.as_arr(b))))

    def covariance(x, method):
        k = norm(A.as_arr(x).shape[1])
        return symbolic('covariance%d' % k, (k, k)), symbolic('precision%d' % k, (k, k))
    h.patch(C, 'estimate_covariance', staticmethod(covariance))
    n0, n = sint('training', 2), sint('rows', 1)
    r = C(tree, method=method)
    for k in tree:
        h.ensure('series below %s' % k, lift(sorted(map(str, r.get_unrolled_hierarchy()[k])) == sorted(map(str, leaves(tree, k)))))
    i0 = frame.time_index('times', n0, True)
    r.fit_reconciliation(data('truth', n0, i0, at_fit), data('base', n0, i0, at_fit), tree)
    if method != 'bayes':
        S, P = A.as_arr(r.s_matrix), A.as_arr(r.p_matrix)
        b, a = norm(P.shape[0]), norm(P.shape[1])
        one = [same(sum((P.read(i, k) * S.read(k, j) for k in range(1, a)), P.read(i, 0) * S.read(0, j)), float(i == j)) for i in range(b) for j in range(b)]
        hyps = [same(sum((Wm.read(i, k) * M.read(k, j) for k in range(1, b)), Wm.read(i, 0) * M.read(0, j)), float(i == j)) for M, Wm in inv for i in range(b) for j in range(b)]
        h.ensure('fit: the projection keeps what adds up', And(*one), hyps=hyps)
        # what follows needs no more of the matrix than that
        r.p_matrix = symbolic('projection', (b, a))
        P = r.p_matrix
        for i in range(b):
            for j in range(b):
                h.assume(same(sum((P.read(i, k) * S.read(k, j) for k in range(1, a)), P.read(i, 0) * S.read(0, j)), float(i == j)))
    ix = frame.time_index('requested', n, True)
    y = data('forecast', n, ix, at_use)
    keep = y.copy()
    rec = r.reconcile(y)
    h.ensure('the table passed in is unchanged', And(lift(list(y.columns) == list(at_use)), equal_arrays(y.values, keep.values)))
    h.ensure('a column per series, a row per time', And(lift(sorted(map(str, rec.columns)) == sorted(map(str, at_use))), lift(rec.values.shape[0]) == n, forall(lambda i: same(rec.index.key(i), ix.key(i)), (0, n))))
    adds_up(h, 'reconciled', rec, tree, n)
    z = coherent(tree, 'sums', n, ix, at_use)
    rz = r.reconcile(z)
    # the bottom series are left alone and the others are their sums, before and after: all are left alone
    adds_up(h, 'forecasts that add up, reconciled', rz, tree, n)
    for c in at_use:
        if c in tree:
            continue
        h.ensure('forecasts that add up are left alone: %s' % c, equal_arrays(A.as_arr(rz[c].values), A.as_arr(z[c].values)))
    other = list(at_use)[::-1]
    ro = r.reconcile(y[other])
    for c in at_use:
        h.ensure('the order of the columns is irrelevant: %s' % c, equal_arrays(A.as_arr(ro[c].values), A.as_arr(rec[c].values)))


for _t, _tree in TREES.items():
    for _m in ('dummy', 'minT', 'bayes'):
        for _k, (_a, _b) in enumerate([(o, orders(_tree)[(j + 1) % 3]) for j, o in enumerate(orders(_tree))]):
            contract('%s, %s, order %d' % (_t, _m, _k), [PR + 'HierarchicalReconciliation.fit_reconciliation, get_summation_matrix, unroll_dict, reconcile'], W)(lambda h, a=(_tree, _m, _a, _b): reconciliation(h, *a))
