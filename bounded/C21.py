"""C21: categorical encoding, observed through the decorator on a probe and on the real decorated forecasters."""
from common import *
from pyforecaster.forecaster import ScenarioGenerator, LinearForecaster, encode_categorical
from pyforecaster.forecasting_models.randomforests import QRF

RULE = 'category columns of several value types (object, category, mixed), sequences of fits and predictions on subsets, unseen values; distinct = (kinds of columns, sequence, model)'


class Probe:
    """shows what reaches a decorated fit / predict"""
    @encode_categorical
    def fit(self, x, y=None):
        self.seen_fit = x
        return self

    @encode_categorical
    def predict(self, x, **kw):
        return x


def column(g, kind, n, k):
    if kind == 'str':
        v = ['c%02d' % i for i in g.integers(0, k, n)]
    elif kind == 'long':
        v = [('x' * (i % 4 + 1)) + str(i) for i in g.integers(0, k, n)]
    elif kind == 'intobj':
        v = [int(i) for i in g.integers(-3, k, n)]
    elif kind == 'floatobj':
        v = [float(i) / 2 for i in g.integers(0, k, n)]
    elif kind == 'mixed':
        pool = ['a', 'B', None, 2, 3.5, True]
        v = [pool[i] for i in g.integers(0, len(pool), n)]
    elif kind == 'case':
        pool = ['On', 'on', 'ON', ' on', 'on ', '']
        v = [pool[i] for i in g.integers(0, len(pool), n)]
    else:
        return pd.Series(pd.Categorical([['lo', 'mid', 'hi'][i] for i in g.integers(0, 3, n)], categories=['lo', 'mid', 'hi', 'never'], ordered=bool(k % 2)))
    return pd.Series(v, dtype=object)


KINDS = ['str', 'long', 'intobj', 'floatobj', 'mixed', 'case', 'cat']


def gen(rng, i, tier):
    return dict(kinds=[KINDS[i % 7]] + rng.sample(KINDS, rng.choice([0, 1, 2])), n=rng.choice([6, 20, 60]), k=rng.choice([1, 2, 5, 12]), seed=rng.randrange(10 ** 6),
                seq=[rng.choice(['sub', 'one', 'perm', 'unseen', 'all', 'new']) for _ in range(rng.choice([2, 4]))], refit=rng.random() < .4, ix=rng.choice(['t', 'i']))


def table(g, p, n):
    d = {}
    for j, k in enumerate(p['kinds']):
        d['k%d' % j] = column(g, k, n, p['k']).values if k != 'cat' else column(g, k, n, p['k'])
    x = pd.DataFrame(d)
    x['num'] = g.normal(size=n)
    x['int'] = g.integers(0, 9, n)
    x['flag'] = g.random(n) < .5
    x = x[list(g.permutation(x.columns))]
    x.index = whole_index(n, 60) if p['ix'] == 't' else pd.Index(np.arange(100, 100 + n))
    return x


def same_table(a, b):
    try:
        pd.testing.assert_frame_equal(a, b)
        return True
    except AssertionError:
        return False


def text(v):
    return str(v)


def probe_run(p):
    g = np.random.default_rng(p['seed'])
    m = Probe()
    cats = ['k%d' % j for j in range(len(p['kinds']))]
    for rnd in range(2 if p['refit'] else 1):
        x = table(g, p, p['n'])
        keep = x.copy(deep=True)
        m.fit(x)
        check(same_table(x, keep), 'fit modified the table of the caller')
        enc = m.seen_fit
        check(list(enc.columns) == list(x.columns) and enc.index.equals(x.index), 'fit changed the labels of the table')
        code = {}
        for c in cats:
            check(pd.api.types.is_numeric_dtype(enc[c]), 'column %s reaches the model unencoded' % c)
            code[c] = {}
            for v, e in zip(x[c].astype(object), enc[c]):
                check(code[c].setdefault(text(v), e) == e, 'value %r of %s has two codes in one fit' % (v, c))
            check(len(set(code[c].values())) == len(code[c]), 'distinct values of %s share a code: %s' % (c, code[c]))
        for c in ('num', 'int', 'flag'):
            check(enc[c].equals(x[c]), 'fit changed the numeric column %s' % c)
        for s in p['seq']:
            if s == 'sub':
                z = x.iloc[np.sort(g.choice(len(x), max(1, len(x) // 3), replace=False))]
            elif s == 'one':
                z = x.iloc[[int(g.integers(len(x)))]]
            elif s == 'perm':
                z = x.iloc[g.permutation(len(x))][list(g.permutation(x.columns))]
            elif s == 'new':
                z = x.iloc[g.integers(0, len(x), 5)].copy()
                z.index = x.index[:len(z)] if len(z) <= len(x) else z.index
                z['num'] = g.normal(size=len(z)) + 50
            else:
                z = x.copy()
            if s == 'unseen':
                c = cats[int(g.integers(len(cats)))]
                z[c] = z[c].astype(object)
                z.iloc[int(g.integers(len(z))), z.columns.get_loc(c)] = 'zz_never_seen'
                try:
                    r = m.predict(z)
                except ValueError:
                    continue
                raise Violation('an unseen value of %s is silently coded as %r' % (c, set(r[c]) - set(code[c].values()) or r[c].iloc[0]))
            kz = z.copy(deep=True)
            r = m.predict(z)
            check(same_table(z, kz), 'predict modified the table of the caller')
            check(list(r.columns) == list(z.columns) and r.index.equals(z.index), 'predict changed the labels of the table')
            for c in cats:
                for v, e in zip(z[c].astype(object), r[c]):
                    check(code[c][text(v)] == e, 'value %r of %s has code %r at fit and %r at a later prediction (%s)' % (v, c, code[c][text(v)], e, s))
            for c in ('num', 'int', 'flag'):
                check(r[c].equals(z[c]), 'predict changed the numeric column %s' % c)
    return [sorted(p['kinds']), p['refit'], sorted(set(p['seq']))]


def model_gen(rng, i, tier):
    p = gen(rng, i, tier)
    p.update(model=['linear', 'ridge', 'qrf'][i % 3], n=rng.choice([60, 120]), kinds=p['kinds'][:2], ix='t', retype=rng.random() < .4)
    return p


def model_run(p):
    """a table's rows are predicted the same whatever other rows and categories the request holds"""
    g = np.random.default_rng(p['seed'])
    x = table(g, p, p['n'])
    eff = {c: g.normal(size=1000) for c in x.columns}
    y = pd.DataFrame({'y_t+1': x['num'] + g.normal(size=len(x)) * .1, 'y_t+2': g.normal(size=len(x))}, index=x.index)
    y['y_t+1'] += x['k0'].astype(str).map(lambda s: (hash_text(s) % 7))
    kw = dict(q_vect=np.array([.1, .5, .9]), val_ratio=.3, nodes_at_step=[1, 2], n_scen_fit=20)
    m = QRF(n_estimators=5, n_jobs=1, formatter=None, **kw) if p['model'] == 'qrf' else LinearForecaster(kind=p['model'], **kw)
    keep = x.copy(deep=True)
    quiet(m.fit, x, y)
    check(same_table(x, keep), 'fit of %s modified the table of the caller' % p['model'])
    full = quiet(m.predict, x)
    for part in ([3], list(range(0, len(x), 5)), list(g.permutation(len(x))[:11])):
        z = x.iloc[part]
        if p['retype']:
            z = z.copy()
            z['num'] = z['num'].astype(object)           # the same numbers, held in an object column
        kz = z.copy(deep=True)
        r = quiet(m.predict, z)
        check(same_table(z, kz), 'predict of %s modified the table of the caller' % p['model'])
        check(close(r.values, full.iloc[part].values, rtol=1e-6, atol=1e-8), '%s predicts the same rows differently in a smaller table%s' % (p['model'], ' with numbers held in an object column' if p['retype'] else ''))
    return [p['model'], sorted(p['kinds']), p['retype']]


def hash_text(s):
    return sum((i + 1) * ord(c) for i, c in enumerate(s))


CASES = [Case('probe', gen, probe_run, quick=70, thorough=800, rule=RULE),
         Case('model', model_gen, model_run, quick=18, thorough=120, rule=RULE)]
