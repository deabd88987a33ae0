"""C01: every generated feature is the declared function of the window its metadata declares, for all row counts and values (missing ones included)."""
from core import *
import frame, sym
import pandas as pd
from itertools import product
ASSUMPTIONS = ['regular time index; declarations and sampling times are enumerated, rows and values are arbitrary',
               'rolling aggregations: an uninterpreted function of the members of the window (t - width, t] (pandas)', 'pandas operations as modelled in pydv/frame.py']
F = 'pyforecaster.formatter'
FN = ['pyforecaster/formatter.py: Transformer.__init__, Transformer.transform, _normalize_timedelta_freq, get_fun_name, hr_timedelta']


def spread(v):
    return v.max() - v.min()


#       names, functions, agg_freq, lags, relative, bins
CONFIGS = {
    'one lag': (['a'], None, None, [1], False, None),
    'lag zero': (['a'], None, None, [0], False, None),
    'lags of either sign': (['a', 'b'], None, None, [3, -2, 0, 1], False, None),
    'a scalar lag': (['b'], None, None, 2, False, None),
    'far lags': (['a'], None, None, [-144, 100], False, None),
    'mean': (['a'], ['mean'], 3, None, False, None),
    'two functions of a text window': (['b', 'a'], ['max', spread], '3h', None, False, None),
    'functions and lags': (['a', 'b'], ['mean', 'std'], 2, [0, 2, 5], False, None),
    'functions and future lags': (['a'], ['min'], '2h', [-1, -4], False, None),
    'functions and relative lags': (['a', 'b'], ['mean', 'min'], 3, [1, -2], True, None),
    'relative lags without functions': (['a'], None, 2, [1, 2], True, None),
    'window of one step': (['a'], ['sum'], 1, [1], True, None),
    'window without a function': (['a'], None, 4, [2], False, None),
    'bins': (['a'], ['mean'], None, None, False, [0, 1, 3]),
    'descending bins, two functions': (['a', 'b'], ['max', 'mean'], None, None, False, [5, 3, 1]),
    'bins with lags': (['a'], ['mean'], None, [0, 2], False, [1, 2, 4]),
    'future bins': (['a'], ['mean'], None, None, False, [-4, -2, 0]),
}


def spec(c, step):
    """independent reading of a declaration: (signal, function, first, last row offset) per column, in column order, and extra rows that must exist"""
    names, funs, agg, lags, rel, bins = c
    k = 1 if agg is None else agg if isinstance(agg, int) else int(pd.Timedelta(agg) / step)
    out = []
    for s in names:
        for l in ([0] if lags is None else [lags] if isinstance(lags, int) else lags):
            if bins is not None:
                e = sorted(bins, reverse=True)
                d = l * (e[0] - e[-1]) if rel else l
                out += [(s, f, -(x + d) + 1, -(y + d), -d) for x, y in zip(e, e[1:]) for f in funs]
            else:
                d = l * k if rel else l
                out += [(s, f, -d - k + 1, -d, -d) for f in (funs or [None])]
    return out


def fname(f):
    return 'none' if f is None else f if isinstance(f, str) else f.__name__


def W(h, m):
    out = []
    for names, funs, agg, lags, rel, bins in CONFIGS.values():
        cfg = dict(names=names, functions=None if funs is None else ['ptp' if callable(f) else f for f in funs], lags=None if lags is None else [lags] if isinstance(lags, int) else lags)
        if agg is not None:
            cfg.update(agg=agg if isinstance(agg, int) else int(agg[0]), agg_form='int' if isinstance(agg, int) else 'str')
        if rel:
            cfg['relative'] = True
        if bins is not None:
            cfg['bins'] = bins
        cfg = {k: v for k, v in cfg.items() if v is not None}
        out.append(dict(case='transformer', params=dict(seed=3, n=30, dt=60, tz=None, cols=['a', 'b'], nans=[[7, 0]], cfg=cfg, give_dt=len(out) % 2 == 0)))
    return out


def run(h, cname, step, give):
    c = CONFIGS[cname]
    names, funs, agg, lags, rel, bins = c
    f = h.module(F)
    step = pd.Timedelta(step)
    if isinstance(agg, str):
        agg = '%dmin' % (int(agg[0]) * step.total_seconds() / 60)
    c = (names, funs, agg, lags, rel, bins)
    n = sint('rows', 2)
    ix = frame.regular_index('t', n, step)
    x = frame.Frame([nanable('a', n), nanable('b', n), symbolic('other', (n,))], ix, pd.Index(['a', 'b', 'other']))
    x0 = x.copy()
    tr = f.Transformer(names, functions=funs, agg_freq=agg, lags=lags, relative_lags=rel, agg_bins=bins, dt=step if give else None)
    out = tr.transform(x, augment=False)
    md = tr.metadata
    exp = spec(c, step)
    labels = list(out.columns)
    h.ensure('one column per declared feature', len(labels) == len(exp))
    h.ensure('one metadata row per column, in column order', list(md.index) == labels)
    h.ensure('rows keep their labels', out.index.equal(ix))
    h.ensure('the input table is left as it was', And(list(x.columns) == ['a', 'b', 'other'], *[equal_arrays(x[k].a, x0[k].a) for k in x0.columns]))
    for j, (sig, fun, lo, hi, at) in enumerate(exp):
        r = md.iloc[j]
        h.ensure('column %d: declared signal and function' % j, r['name'] == sig and (r['function'] if r['function'] is not None else 'none') == fname(fun))
        h.ensure('column %d: declared window' % j, pd.Timedelta(r['start_time']) == lo * step and pd.Timedelta(r['end_time']) == (hi + 1) * step)
        got = lift_arr(out.cl[j])
        src = x0[sig].a.snapshot()
        h.ensure('column %d: the function of exactly the window' % j, forall(lambda q: value(h, got, src, fun, lo, hi, at, n, q), (0, n)))
    md2 = tr.metadata.copy()
    tr2 = f.Transformer(names, functions=funs, agg_freq=agg, lags=lags, relative_lags=rel, agg_bins=bins, dt=step)
    tr2.transform(None if give else x, simulate=True)
    h.ensure('a dry run declares the same', same_meta(tr2.metadata, md2))
    full = tr.transform(x)
    h.ensure('augmenting keeps the original columns in front', list(full.columns) == ['a', 'b', 'other'] + labels)
    h.ensure('augmenting keeps the values', And(*[equal_arrays(full.cl[j], x0.cl[j]) for j in range(3)], *[equal_arrays(full.cl[3 + j], out.cl[j]) for j in range(len(labels))]))
    h.ensure('a second transformation declares the same', same_meta(tr.metadata, md2))


def same_meta(a, b):
    cols = ['name', 'function', 'lag', 'start_time', 'end_time', 'aggregation_time', 'spacing_time', 'relative_lags']
    return list(a.index) == list(b.index) and all(str(u) == str(v) for k in cols for u, v in zip(a[k], b[k]))


def lift_arr(a):
    sn = a.snapshot()
    return lambda q: lift(sn(q))


def nanable(name, n):
    """values of which any may be missing"""
    v, m = symbolic(name, (n,)), symbolic(name + '_missing', (n,), 'b')
    vs, ms = v.snapshot(), m.snapshot()
    return Arr((n,), lambda i: S(sym.real(numterm(vs(i))), boolterm(ms(i))), 'f')


def missing(v):
    return S(v.nan) if v.nan is not None else S(z3.BoolVal(False))


def value(h, got, src, fun, lo, hi, at, n, q):
    g = got(q)
    offs = range(lo, hi + 1) if fun is not None else [hi]
    need = [lift(q) + o for o in offs]
    inside = And(*[And(j >= 0, j < n) for j in (need[0], need[-1], lift(q) + at)])
    vals = [lift(src(norm(j))) for j in need]
    present = And(inside, *[Not(missing(v)) for v in vals])
    if fun is None:
        want = vals[0]
    else:
        want = frame.window_value(fun, [S(v.t) for v in vals], [z3.BoolVal(True)] * len(vals), 0)
    return And(Implies(present, And(Not(missing(g)), S(g.t) == S(want.t))), Implies(Not(present), missing(g)))


for _i, _c in enumerate(CONFIGS):
    _s = ('60min', '15min', '1D')[_i % 3]
    contract('%s, sampled every %s' % (_c, _s), FN, W)(lambda h, c=_c, s=_s, g=_i % 2 == 0: run(h, c, s, g))
