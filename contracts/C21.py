"""C21: what reaches a decorated fit / predict, for all tables, values and sequences fit, predict, predict and fit, fit, predict."""
from core import *
from core import _fn
import types
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['values are numbered, their text is an arbitrary function of the value; two values are the same category when their texts are equal',
               'LabelEncoder.fit_transform numbers the distinct values (its classes_), transform gives a value the number of that class and raises ValueError for a value which is none of them',
               'the number and the types of the columns are enumerated (one and three categorical columns among numeric ones, columns in another order, a column which is categorical only at prediction)',
               'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.forecaster'
FF = 'pyforecaster/forecaster.py: '


def W(h, m):
    out = []
    for i, kinds in enumerate((['str'], ['cat', 'str'], ['mixed', 'long'], ['case', 'intobj', 'cat'], ['floatobj'])):
        for k in (1, 2, 5, 12):
            for refit in (False, True):
                out.append(dict(case='probe', params=dict(kinds=kinds, n=20 if k < 12 else 60, k=k, seed=7 * i + k, seq=['sub', 'one', 'perm', 'unseen', 'all', 'new', 'unseen', 'sub'], refit=refit, ix='ti'[i % 2])))
    return out


def WM(h, m):
    return [dict(case='model', params=dict(kinds=['str', 'cat'][:1 + r], n=60, k=3, seed=s, seq=['sub'], refit=False, ix='t', model=mo, retype=r)) for s, mo in enumerate(('linear', 'ridge', 'qrf')) for r in (False, True)]


class Encoder:
    """a fitted encoder: number of the class = rank among the distinct values seen at fit"""
    def fit(self, y):
        a = A.as_arr(y)
        self.lam, self.nt, self.cnt, self.n = A.unique_parts(a)
        sn = a.snapshot()
        self.key = lambda j: sn(j)
        return self

    def of(self, v):
        return A.find(self.n, self.key, lift(v))

    @property
    def classes_(self):
        u = A.Arr((self.cnt,), lambda k: S(A.UNIQ(self.lam, self.nt, numterm(k))), 'i')
        u.member = lambda v: self.of(v)[0]
        return u

    def transform(self, y):
        a = A.as_arr(y)
        sn = a.snapshot()
        if bool(A.quant('any', a.shape[0], lambda i: Not(self.of(sn(i))[0]))):
            raise ValueError('y contains previously unseen labels')
        return A.Arr(a.shape, lambda i: S(A.UPOS(self.lam, self.nt, self.of(sn(i))[1].t)), 'i')

    def fit_transform(self, y):
        a = A.as_arr(y)
        self.fit(a)
        return A.Arr(a.shape, lambda i: S(A.UPOS(self.lam, self.nt, numterm(i))), 'i')


def load(h):
    h.loader.extra['sklearn.preprocessing'] = types.SimpleNamespace(LabelEncoder=Encoder, OneHotEncoder=None, StandardScaler=None)
    f = h.module(F)
    t = ghost('text', 'i', 'i')
    frame.TEXT[0] = lambda v: t(lift(v))
    return f


def make(h, name, cats, nums, order, ix=None):
    """a table: categorical columns hold numbered values"""
    n = sint('rows_' + name, 1)
    ix = ix or frame.time_index('t_' + name, n, False)
    cl = {}
    for c in cats:
        a = symbolic(c + '_' + name, (n,), 'i')
        cl[c] = A.Arr((n,), a.snapshot(), 'O')
    for k, c in enumerate(nums):
        cl[c] = symbolic(c + '_' + name, (n,), 'fib'[k % 3])
    return frame.Frame([cl[c] for c in order], ix, pd.Index(order))


def text(x, c):
    sn = x[c].a.snapshot()
    return lambda i: frame.TEXT[0](sn(i))


def passed(h, got, x, cats, tag):
    """everything but the encoded columns is the caller's table"""
    h.ensure('%s: columns and rows of the request' % tag, And(lift(list(got.columns) == list(x.columns)), got.index.same(x.index)))
    h.ensure('%s: encoded columns reach the model as numbers' % tag, And(*[lift(got[c].a.kind in 'if') for c in cats]))
    h.ensure('%s: the other columns reach the model unchanged' % tag, And(*[And(equal_arrays(got[c].a, x[c].a), lift(got[c].a.kind == x[c].a.kind)) for c in x.columns if c not in cats]))


def fitted(h, x, got, cats, tag):
    n = x.index.n
    for c in cats:
        tx, e = text(x, c), got[c].a.snapshot()
        h.ensure('%s: same value, same code (%s)' % (tag, c), forall(lambda i, j: Implies(tx(i) == tx(j), e(i) == e(j)), (0, n), (0, n)))
        h.ensure('%s: distinct values, distinct codes (%s)' % (tag, c), forall(lambda i, j: Implies(e(i) == e(j), tx(i) == tx(j)), (0, n), (0, n)))


def probe(f, seen):
    class Probe:
        @f.encode_categorical
        def fit(self, x, y=None, **k):
            seen.append((x, y, k))
            return self

        @f.encode_categorical
        def predict(self, x, *a, **k):
            seen.append((x, a, k))
            return x
    return Probe()


def keep(x):
    return [c.copy() for c in x.cl]


def untouched(h, x, k, tag):
    h.ensure('%s: table of the caller unchanged' % tag, And(lift(len(x.cl) == len(k)), *[And(equal_arrays(a, b), lift(a.kind == b.kind)) for a, b in zip(x.cl, k)]))


def predict(h, m, z, x, code, cats, tag):
    """one later request: coded as at fit, or rejected because a value was not seen"""
    kz = keep(z)
    n, k = x.index.n, z.index.n
    new = Or(*[Not(forall(lambda i, c=c: A.find(n, text(x, c), text(z, c)(i))[0], (0, k))) for c in cats])
    try:
        r = m.predict(z)
    except ValueError:
        h.ensure('%s: rejected only when a value was not seen at fit' % tag, new)
        untouched(h, z, kz, tag)
        return False
    untouched(h, z, kz, tag)
    passed(h, r, z, cats, tag)
    for c in cats:
        tx, tz, e, d = text(x, c), text(z, c), code[c], r[c].a.snapshot()
        h.ensure('%s: no unseen value gets a code (%s)' % (tag, c), forall(lambda i: A.find(n, tx, tz(i))[0], (0, k)))
        h.ensure('%s: the code of the value at fit (%s)' % (tag, c), forall(lambda i, j: Implies(tz(i) == tx(j), d(i) == e(j)), (0, k), (0, n)))
        h.ensure('%s: distinct values keep distinct codes (%s)' % (tag, c), forall(lambda i, j: Implies(Not(tz(i) == tx(j)), Not(d(i) == e(j))), (0, k), (0, n)))
    return True


for _n, _cats, _nums, _o1, _o2 in (('one column', ['k'], ['u', 'v', 'w'], ['u', 'k', 'v', 'w'], ['w', 'k', 'u', 'v']), ('three columns', ['a', 'b', 'c'], ['u'], ['a', 'u', 'b', 'c'], ['c', 'a', 'b', 'u']), ('only categories', ['k'], [], ['k'], ['k'])):
    @contract('fit and later requests, %s' % _n, [FF + 'encode_categorical'], W)
    def _(h, cats=_cats, nums=_nums, o1=_o1, o2=_o2):
        f = load(h)
        seen = []
        m = probe(f, seen)
        x = make(h, 'fit', cats, nums, o1)
        kx = keep(x)
        y = object()
        h.ensure('fit returns what the fit returns', lift(m.fit(x, y, a=3) is m))
        h.ensure('fit: the arguments reach the fit', lift(len(seen) == 1 and seen[0][1] is y and seen[0][2] == {'a': 3}))
        got = seen[0][0]
        untouched(h, x, kx, 'fit')
        passed(h, got, x, cats, 'fit')
        fitted(h, x, got, cats, 'fit')
        code = {c: got[c].a.snapshot() for c in cats}
        z = make(h, 'first', cats, nums, o2)
        predict(h, m, z, x, code, cats, 'first request')
        untouched(h, x, kx, 'first request')
        predict(h, m, make(h, 'second', cats, nums, o1), x, code, cats, 'second request')


@contract('two fits and a request', [FF + 'encode_categorical'], W)
def refit(h):
    f = load(h)
    seen = []
    m = probe(f, seen)
    x0 = make(h, 'old', ['k', 'l'], ['u'], ['k', 'l', 'u'])
    m.fit(x0)
    x = make(h, 'fit', ['k'], ['u', 'l'], ['l', 'k', 'u'])
    kx = keep(x)
    m.fit(x)
    got = seen[1][0]
    untouched(h, x, kx, 'second fit')
    passed(h, got, x, ['k'], 'second fit')
    fitted(h, x, got, ['k'], 'second fit')
    predict(h, m, make(h, 'req', ['k'], ['u', 'l'], ['k', 'u', 'l']), x, {'k': got['k'].a.snapshot()}, ['k'], 'request')


@contract('a numeric column which arrives as objects', [FF + 'encode_categorical'], WM)
def retyped(h):
    f = load(h)
    seen = []
    m = probe(f, seen)
    x = make(h, 'fit', ['k'], ['u', 'v'], ['u', 'k', 'v'])
    m.fit(x)
    got = seen[0][0]
    z = make(h, 'req', ['k', 'v'], ['u'], ['u', 'k', 'v'])
    predict(h, m, z, x, {'k': got['k'].a.snapshot()}, ['k'], 'request')


@contract('separate forecasters', [FF + 'encode_categorical'], W)
def separate(h):
    f = load(h)
    s1, s2 = [], []
    m1, m2 = probe(f, s1), probe(f, s2)
    x = make(h, 'fit', ['k'], ['u'], ['u', 'k'])
    m1.fit(x)
    m2.fit(make(h, 'other', ['k'], ['u'], ['k', 'u']))
    predict(h, m1, make(h, 'req', ['k'], ['u'], ['k', 'u']), x, {'k': s1[0][0]['k'].a.snapshot()}, ['k'], 'request to the first')


@contract('LinearForecaster', ['pyforecaster/forecaster.py: LinearForecaster.fit', 'pyforecaster/forecaster.py: LinearForecaster.predict', FF + 'encode_categorical'], WM)
def linear(h):
    f = load(h)
    seen, cal = [], []

    class Regressor:
        def fit(self, x, y):
            seen.append(x)
            return self

        def predict(self, x):
            seen.append(x)
            return symbolic('point', (x.index.n, 2))
    f.LinearRegression = Regressor
    f.RidgeCV = lambda **k: Regressor()
    h.patch(f.ScenarioGenerator, 'fit', lambda self, x, y, *a, **k: cal.append(x) or self)
    h.patch(f.ScenarioGenerator, 'anti_transform', lambda self, x, y: y)
    for kind in ('linear', 'ridge'):
        del seen[:], cal[:]
        m = f.LinearForecaster(kind=kind, q_vect=np.array([.25, .75]))
        m.target_cols = pd.Index(['y1', 'y2'])
        x = make(h, 'fit', ['k'], ['u', 'v'], ['u', 'k', 'v'])
        kx = keep(x)
        m.fit(x, frame.Frame([symbolic('y1', (x.index.n,)), symbolic('y2', (x.index.n,))], x.index, pd.Index(['y1', 'y2'])))
        got = seen[0]
        untouched(h, x, kx, '%s fit' % kind)
        passed(h, got, x, ['k'], '%s fit' % kind)
        passed(h, cal[0], x, ['k'], '%s calibration' % kind)
        fitted(h, x, got, ['k'], '%s fit' % kind)
        code = got['k'].a.snapshot()
        z = make(h, 'req', ['k'], ['u', 'v'], ['u', 'k', 'v'])
        kz = keep(z)
        try:
            r = m.predict(z)
        except ValueError:
            continue
        finally:
            untouched(h, z, kz, '%s request' % kind)
        passed(h, seen[1], z, ['k'], '%s request' % kind)
        tx, tz, d = text(x, 'k'), text(z, 'k'), seen[1]['k'].a.snapshot()
        h.ensure('%s request: the code of the value at fit' % kind, forall(lambda i, j: Implies(tz(i) == tx(j), d(i) == code(j)), (0, z.index.n), (0, x.index.n)))
        h.ensure('%s request: rows of the request' % kind, r.index.same(z.index))
