"""C16: reconciliation on random hierarchies: adds up, labels, projection; run on the real class."""
from common import *
from pyforecaster.reconciliation.reconciliation import HierarchicalReconciliation as HR
from pyforecaster.forecaster import LinearForecaster


def hierarchy(p):
    """random tree: bottoms b0.., intermediate nodes, a root; names are strings, or ints for the bottom series"""
    g = np.random.default_rng(p['seed'])
    nb = p['nb']
    bottoms = list(range(nb)) if p['intnames'] else ['s%s' % chr(97 + (7 * j) % 26) for j in range(nb)]
    aggs, h, pool = [], {}, list(bottoms)
    k = 0
    while len(pool) > 1:
        take = min(len(pool), int(g.integers(2, 4)))
        if len(pool) <= 3 or k + 1 >= p['maxagg']:
            take = len(pool)
        sel = [pool[i] for i in sorted(g.choice(len(pool), take, replace=False))]
        name = 'a_%d' % (9 - k)
        h[name] = [sel[i] for i in g.permutation(len(sel))]
        pool = [c for c in pool if c not in sel] + [name]
        k += 1
    names = list(h)
    h = {n: h[n] for n in ([names[i] for i in g.permutation(len(names))] if p['shuffle_h'] else names)}
    return g, h, bottoms


def leaves(h, k):
    return [k] if k not in h else [l for c in h[k] for l in leaves(h, c)]


def coherent(g, h, bottoms, n, order):
    yb = {b: g.normal(size=n) * (1 + j) + j for j, b in enumerate(bottoms)}
    d = {c: (yb[c] if c in yb else sum(yb[l] for l in leaves(h, c))) for c in order}
    return pd.DataFrame(d, index=pd.date_range('2022-01-01', periods=n, freq='1h'))[list(order)]


def check_adds(y, h, what):
    for k in h:
        check(close(y[k].values, sum(y[l].values for l in leaves(h, k)), rtol=1e-6, atol=1e-7), '%s: %s is not the sum of its bottom series' % (what, k))
        check(close(y[k].values, sum(y[c].values for c in h[k]), rtol=1e-6, atol=1e-7), '%s: %s is not the sum of its children' % (what, k))


def run_unit(p):
    g, h, bottoms = hierarchy(p)
    allc = list(h) + bottoms
    order = [allc[i] for i in g.permutation(len(allc))] if p['shuffle_c'] else allc
    n = p['n']
    y = coherent(g, h, bottoms, n, order)
    y_hat = y + pd.DataFrame(g.normal(size=y.shape) * .5, index=y.index, columns=y.columns)
    r = HR(h, method=p['method'])
    keep = y_hat.copy()
    for k, ls in r.get_unrolled_hierarchy().items():
        check(sorted(map(str, ls)) == sorted(map(str, leaves(h, k))), 'bottom series of %s are %s' % (k, ls))
    quiet(r.fit_reconciliation, y, y_hat, h)
    rec = quiet(r.reconcile, y_hat)
    check(y_hat.equals(keep) and list(y_hat.columns) == order, 'reconcile changed the table of the caller')
    check(sorted(map(str, rec.columns)) == sorted(map(str, order)) and rec.index.equals(y_hat.index), 'reconciled table has columns %s for %s' % (list(rec.columns), order))
    check_adds(rec, h, p['method'])
    # already coherent: unchanged, so each column is on its own series
    y2 = coherent(g, h, bottoms, 7, order)
    rec2 = quiet(r.reconcile, y2)
    for c in order:
        check(close(rec2[c].values, y2[c].values, rtol=1e-6, atol=1e-7), '%s: series %s of an already coherent forecast changed' % (p['method'], c))
    # the order of the input columns is irrelevant
    po = [order[i] for i in g.permutation(len(order))]
    rec3 = quiet(r.reconcile, y_hat[po])
    for c in order:
        check(close(rec3[c].values, rec[c].values, rtol=1e-6, atol=1e-7), '%s: series %s depends on the order of the columns' % (p['method'], c))
    r2 = HR(h, method=p['method'])
    quiet(r2.fit_reconciliation, y[po], y_hat[po], h)
    rec4 = quiet(r2.reconcile, y_hat)
    for c in order:
        check(close(rec4[c].values, rec[c].values, rtol=1e-5, atol=1e-6), '%s: series %s depends on the order of the columns at fit' % (p['method'], c))
    if p['method'] == 'dummy':
        S = np.array([[1. if b in leaves(h, c) else 0. for b in bottoms] for c in order])
        exp = y_hat.values @ np.linalg.pinv(S).T @ S.T
        check(close(rec.values if list(rec.columns) == order else rec[order].values, exp, rtol=1e-6, atol=1e-7), 'dummy reconciliation is not the orthogonal projection')
    return ['unit', p['method'], len(h), len(bottoms), p['shuffle_c'], p['intnames']]


def gen_unit(rng, i, tier):
    return dict(seed=rng.randrange(10**6), nb=rng.choice([2, 3, 4, 6]), maxagg=rng.choice([1, 2, 4]), intnames=rng.random() < .4, shuffle_h=rng.random() < .5, shuffle_c=rng.random() < .7,
                n=rng.choice([30, 60]), method=['dummy', 'minT', 'bayes'][i % 3])


def run_e2e(p):
    g, h, bottoms = hierarchy(p)
    allc = list(h) + bottoms
    order = [allc[i] for i in g.permutation(len(allc))] if p['shuffle_c'] else allc
    n = p['n']
    y = coherent(g, h, bottoms, n, order)
    ns = p['steps']

    def build(names, lo, hi):
        xs, ys = [], []
        for c in names:
            t = y[c].iloc[lo:hi]
            x = pd.DataFrame({'f0': t.values, 'f1': g.normal(size=hi - lo)}, index=t.index)
            x['name'] = c
            xs.append(x)
            ys.append(pd.DataFrame({'target_%d' % s: t.values * (1 + s) + g.normal(size=hi - lo) * 0 for s in range(ns)}, index=t.index))
        return pd.concat(xs), pd.concat(ys)
    k = n - 30
    x, t = build(order, 0, k)
    po = [order[i] for i in g.permutation(len(order))]
    xp, tp = build(po, k, n)
    r = HR(h, method=p['method'], base_forecaster_class=LinearForecaster, q_vect=np.array([.2, .5, .9]), n_scenarios=3)
    quiet(r.fit, x, t + g.normal(size=t.shape) * .3)
    np.random.seed(p['seed'])
    yh = quiet(r.predict, xp)
    van = quiet(r.predict, xp, method='vanilla')
    for s in range(ns):
        tab = yh.xs('target_%d' % s, axis=1, level=1)
        check(len(tab) == 30, 'reconciled forecast has %d rows for 30 times' % len(tab))
        check_adds(tab, h, '%s step %d' % (p['method'], s))
        base = van.xs('target_%d' % s, axis=1, level=1)
        ref = quiet(r.reconcile, base)
        for c in order:
            check(close(tab[c].values, ref[c].values), 'series %s of the forecast is not its reconciled base forecast' % c)
            own = np.corrcoef(tab[c].values, y[c].iloc[k:n].values)[0, 1]
    sc = quiet(r.predict_scenarios, xp)
    check(len(sc) == 30 and sc.index.equals(yh.index), 'scenarios have other rows than the request')
    qs = quiet(r.predict_quantiles, xp)
    check(len(qs) == 30 and not qs.isna().any().any(), 'reconciled quantiles miss rows')
    v = qs.values.reshape(30, -1, 3)
    check((np.diff(v, axis=2) >= -1e-9).all(), 'reconciled quantiles cross')
    return ['e2e', p['method'], len(h), ns]


def gen_e2e(rng, i, tier):
    d = gen_unit(rng, i, tier)
    d.update(n=150, steps=rng.choice([1, 2, 3]), nb=rng.choice([2, 3, 4]))
    return d


def run_scen(p):
    """data that adds up: every reconciled scenario adds up too (an error trace is applied to all the series at once)"""
    g, h, bottoms = hierarchy(p)
    order = list(h) + bottoms
    n = p['n']
    y = coherent(g, h, bottoms, n, order)
    xs, ys = [], []
    for c in order:
        x = pd.DataFrame({'f0': y[c].values, 'f1': g.normal(size=n)}, index=y.index)
        x['name'] = c
        xs.append(x)
        ys.append(pd.DataFrame({'target_%d' % s: np.roll(y[c].values, -s - 1) for s in range(p['steps'])}, index=y.index))
    x, t = pd.concat(xs), pd.concat(ys)
    r = HR(h, method=p['method'], base_forecaster_class=LinearForecaster, n_scenarios=3)
    quiet(r.fit, x, t)
    np.random.seed(p['seed'])
    sc = quiet(r.predict_scenarios, x)
    for s in range(3):
        for st in range(p['steps']):
            tab = sc.xs(s, axis=1, level='scenario').xs('target_%d' % st, axis=1, level='step')
            check_adds(tab, h, '%s scenario %d' % (p['method'], s))
    return ['scen', p['method'], len(h)]


RULE = 'random hierarchies (1-5 aggregates), column orders, methods; distinct = distinct (method, numbers of aggregated and bottom series, order, names)'
CASES = [Case('unit', gen_unit, run_unit, 60, 600, rule=RULE), Case('e2e', gen_e2e, run_e2e, 9, 90, rule=RULE), Case('scen', gen_e2e, run_scen, 6, 60, rule=RULE)]
