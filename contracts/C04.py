"""C04: normalisation rewrites the columns of its signals once and is undone exactly, for all row counts, values and inverse pairs."""
from core import *
import frame, sym
import pandas as pd
ASSUMPTIONS = ['the denormalising function is the left inverse of the normalising function at equal normalisers (the statement\'s precondition); both work row by row',
               'table layouts are enumerated; rows and values are arbitrary', 'pandas operations as modelled in pydv/frame.py']
F = 'pyforecaster.formatter'
FN = ['pyforecaster/formatter.py: Formatter.normalize, normalize_target_inner, normalizing_wrapper, denormalize, add_normalizing_columns']


def W_norm(h, m):
    b = dict(n=40, dt=60, tz=None, cols=['a', 'b', 'c'], expr='z', wm=3, ws=3, lagm=None, levels=[.1, .5, .9], sub=True)
    c1 = dict(names=['a', 'b'], functions=['mean', 'max'], agg_freq=2, lags=[1, 3], relative_lags=False, agg_bins=None)
    c2 = dict(names=['a'], lags=[1, 2])
    t = [dict(names=['b'], lags=[-1]), dict(names=['a'], lags=[-1, -2])]
    out = []
    for i, (cf, s2) in enumerate((([c1], None), ([c2, c1], None), ([c1, c2], 'b'), ([c2], 'c'))):
        out.append(dict(case='normalise', params=dict(b, seed=i + 1, cfgs=cf, tcfgs=t, signal='a', signal2=s2, expr=['z', 'shift', 'scale', 'cube'][i])))
    return out


class Tr:
    """stands for a transformer: its generated columns, where they come from, and its name"""
    def __init__(self, meta, name=None, names=None, table=None):
        self.metadata = pd.DataFrame({'name': [s for _, s in meta], 'lag': range(len(meta))}, index=[c for c, _ in meta])
        self.name, self.names, self.table = name, names, table

    def transform(self, x, augment=True, simulate=False):
        return frame.concat([x, self.table], axis=1) if augment else self.table


def pair(f):
    """an arbitrary pair of inverse row-wise functions of a value and two normalisers"""
    n, d = ghost('normalise', 'rrr', 'r'), ghost('denormalise', 'rrr', 'r')
    sym.AX[n.d.get_id()] = lambda t: [d.d(t, t.arg(1), t.arg(2)) == t.arg(0)]

    def rowwise(g):
        def fn(y, m, s):
            ys, ms, ss = (c.a.snapshot() for c in (y, m, s))
            return frame.Series(Arr(y.a.shape, lambda i: val(g, ys(i), ms(i), ss(i)), 'f'), y.index)
        return fn

    def val(g, *a):
        a = [lift(v) for v in a]
        r = g(*[S(v.t) for v in a])
        bad = [v.nan for v in a if v.nan is not None]
        return S(r.t, z3.Or(*bad)) if bad else r
    f.N_, f.D_ = rowwise(n), rowwise(d)
    return lambda y, m, s: val(n, y, m, s)


LAYOUTS = {
    'one signal': dict(trs=[[('a_1', 'a'), ('b_1', 'b'), ('a_2', 'a')], [('c_1', 'c')]], tts=[[('a_t1', 'a'), ('a_t2', 'a')]], norm='a', norm2='a'),
    'a signal among others': dict(trs=[[('b_1', 'b')], [('a_1', 'a'), ('c_1', 'c')], [('a_3', 'a')]], tts=[[('b_t1', 'b')], [('a_t1', 'a'), ('c_t1', 'c')], [('a_t2', 'a')]], norm='a', norm2='a'),
    'two signals': dict(trs=[[('b_1', 'b'), ('a_1', 'a')], [('c_1', 'c'), ('b_2', 'b')]], tts=[[('c_t1', 'c'), ('b_t1', 'b')], [('a_t1', 'a')]], norm='b', norm2='a'),
    'no feature of the signal': dict(trs=[[('b_1', 'b')]], tts=[[('a_t1', 'a')]], norm='a', norm2='a'),
    'names that contain each other': dict(trs=[[('a_1', 'a'), ('aa_1', 'aa')], [('aa_a_1', 'aa_a')]], tts=[[('aa_t1', 'aa'), ('a_t1', 'a')]], norm='a', norm2='a'),
}


def make(h, lay):
    f = h.module(F)
    sp = pair(f)
    fm = f.Formatter(n_parallel=1)
    n = sint('rows', 1)
    ix = frame.time_index('t', n, increasing=False)
    feats = [c for tr in lay['trs'] for c, _ in tr]
    targs = [c for tr in lay['tts'] for c, _ in tr]
    base = sorted({s for tr in lay['trs'] + lay['tts'] for _, s in tr})
    x = table('x', n, ix, base + feats)
    y = table('y', n, ix, targs)
    nm = table('n', n, ix, ['m', 's'])
    fm.transformers = [Tr(m) for m in lay['trs']]
    fm.target_transformers = [Tr(m) for m in lay['tts']]
    one = lambda c, sig: Tr([('out_' + c, sig)], c, [sig], frame.Frame([nm[c].a], ix, pd.Index(['out_' + c])))
    fm.target_normalizers = [one('m', lay['norm']), one('s', lay['norm2'])]
    fm.add_normalizing_fun("N_(df[t], df['m'], df['s'])", "D_(df[t], df['m'], df['s'])")
    src = {c: s for tr in lay['trs'] + lay['tts'] for c, s in tr}
    return fm, sp, n, ix, x, y, nm, src, base, feats, targs, {lay['norm'], lay['norm2']}


def columns(h, what, got, was, exp, hyp=None):
    h.ensure('%s: columns and rows as before' % what, And(list(got.columns) == list(was.columns), got.index.equal(was.index)))
    for c in was.columns:
        h.ensure('%s: column %s' % (what, c), equal_arrays(got[c].values, exp(c)))


def run(h, lay):
    fm, sp, n, ix, x, y, nm, src, base, feats, targs, signals = make(h, lay)
    ms, ss = nm['m'].a.snapshot(), nm['s'].a.snapshot()

    def normed(t):
        def exp(c):
            a = t[c].a
            if src.get(c) not in signals:
                return a
            sn = a.snapshot()
            return Arr((n,), lambda i: sp(sn(i), ms(i), ss(i)), 'f')
        return exp
    x0, y0 = x.copy(), y.copy()
    xn = fm.add_normalizing_columns(x)
    h.ensure('the normalisers become columns', list(xn.columns) == list(x.columns) + ['m', 's'])
    for c in ('m', 's'):
        h.ensure('normaliser column %s' % c, equal_arrays(xn[c].values, nm[c].a))
    x1 = xn.copy()
    yt, xt = fm.normalize(xn, y)
    columns(h, 'features', xt, x1, normed(x1))
    columns(h, 'targets', yt, y0, normed(y0))
    only, xo = fm.normalize(x1.copy(), None, return_target=False)
    columns(h, 'features without targets', xo, x1, normed(x1))
    # undo: same rows
    keep_x, keep_y = xt.copy(), yt.copy()
    back = fm.denormalize(xt, yt)
    columns(h, 'undone', back, y0, lambda c: y0[c].a)
    columns(h, 'the feature table passed', xt, keep_x, lambda c: keep_x[c].a)
    columns(h, 'the target table passed', yt, keep_y, lambda c: keep_y[c].a)


for _n, _l in LAYOUTS.items():
    contract('normalise and undo, %s' % _n, FN, W_norm)(lambda h, l=_l: run(h, l))


@contract('undo on some of the rows', FN, W_norm)
def some_rows(h):
    fm, sp, n, ix, x, y, nm, src, base, feats, targs, signals = make(h, LAYOUTS['a signal among others'])
    y0 = y.copy()
    xn = fm.add_normalizing_columns(x)
    yt, xt = fm.normalize(xn, y)
    keep = symbolic('keep', (n,), 'b')
    back = fm.denormalize(xt.loc[keep], yt.loc[keep])
    want = y0.loc[keep]
    columns(h, 'undone', back, want, lambda c: want[c].a)


def quantiles(h, lay, levels):
    fm, sp, n, ix, x, y, nm, src, base, feats, targs, signals = make(h, lay)
    xn = fm.add_normalizing_columns(x)
    _, xt = fm.normalize(xn, None, return_target=False)
    labels = [(t, q) for t in targs for q in levels]
    q0 = frame.Frame([symbolic('q_%d' % i, (n,)) for i in range(len(labels))], ix, pd.MultiIndex.from_tuples(labels))
    ms, ss = nm['m'].a.snapshot(), nm['s'].a.snapshot()

    def norm(l):
        sn = q0[l].a.snapshot()
        return Arr((n,), lambda i: sp(sn(i), ms(i), ss(i)), 'f') if src[l[0]] in signals else q0[l].a
    qn = frame.Frame([norm(l) for l in labels], ix, pd.MultiIndex.from_tuples(labels))
    keep = qn.copy()
    back = fm.denormalize(xt, qn)
    h.ensure('columns and rows as before', And(list(back.columns) == labels, back.index.equal(ix)))
    for l in labels:
        h.ensure('quantile %s of %s is undone' % (l[1], l[0]), equal_arrays(back[l].values, q0[l].a))
        h.ensure('the passed quantile %s of %s is unchanged' % (l[1], l[0]), equal_arrays(qn[l].values, keep[l].a))


for _n, _q in (('one signal', (.25,)), ('a signal among others', (.125, .5, .875)), ('two signals', (.5, .25))):
    contract('quantile tables are undone, %s, %d levels' % (_n, len(_q)), FN, W_norm)(lambda h, l=LAYOUTS[_n], q=_q: quantiles(h, l, q))


@contract('without expressions nothing is rewritten', FN, None)
def nothing(h):
    fm, sp, n, ix, x, y, nm, src, base, feats, targs, signals = make(h, LAYOUTS['one signal'])
    fm.normalizing_fun = fm.denormalizing_fun = None
    x0, y0 = x.copy(), y.copy()
    yt, xt = fm.normalize(x, y)
    columns(h, 'features', xt, x0, lambda c: x0[c].a)
    columns(h, 'targets', yt, y0, lambda c: y0[c].a)
    back = fm.denormalize(x, y)
    columns(h, 'undone', back, y0, lambda c: y0[c].a)
