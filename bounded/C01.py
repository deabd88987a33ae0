from common import *
import fmt
import pyforecaster.formatter as pyf


def gen(rng, i, tier):
    cols = rng.choice([['a', 'b'], [0, 1, 2], ['load', 'temp']])
    names = [cols[0]] if rng.random() < .6 else list(cols[:2])
    return dict(seed=rng.randrange(10**6), n=rng.choice([1, 2, 7, 25, 30, 41]) if i % 7 == 0 else rng.randint(20, 45), dt=rng.choice([1, 10, 15, 20, 60]),
                tz=rng.choice([None, None, 'Europe/Zurich', 'UTC']), cols=cols,
                nans=[] if rng.random() < .7 else [[rng.randrange(1000), rng.randrange(5)] for _ in range(2)],
                cfg=fmt.gen_cfg(rng, i, names), give_dt=rng.random() < .3)


def expected_meta(cfg, dt):
    step = pd.Timedelta(minutes=dt)
    out = []
    for nm in cfg['names']:
        for f, lo, hi in (c[:3] for c in fmt.spec_columns(cfg, nm)):
            out.append((nm, 'none' if f is None else f, lo * step, hi * step + step))
    return out


def check_meta(md, cols, cfg, dt, what):
    exp = expected_meta(cfg, dt)
    check(len(md) == len(exp), '%s: %d metadata rows for %d generated columns' % (what, len(md), len(exp)))
    if cols is not None:
        check(list(md.index) == list(cols), '%s: metadata rows %s do not follow the generated columns %s' % (what, list(md.index)[:6], list(cols)[:6]))
    for j, (nm, f, s, e) in enumerate(exp):
        r = md.iloc[j]
        check(r['name'] == nm, '%s: column %s declared to come from %r, comes from %r' % (what, md.index[j], r['name'], nm))
        fn = r['function'] if r['function'] is not None else 'none'
        check(fn == f, '%s: column %s declared as %r, is %r' % (what, md.index[j], fn, f))
        check(pd.Timedelta(r['start_time']) == s and pd.Timedelta(r['end_time']) == e,
              '%s: column %s declares window [%s, %s), its samples are in [%s, %s)' % (what, md.index[j], r['start_time'], r['end_time'], s, e))


def check_values(out, x, cfg):
    j = 0
    for nm in cfg['names']:
        v = x[nm].values
        for col in fmt.spec_columns(cfg, nm):
            got = out.iloc[:, j].values.astype(float)
            exp = fmt.spec_values(v, col)
            bad = np.where(~np.isclose(got, exp, rtol=1e-6, atol=1e-7, equal_nan=True))[0]
            check(len(bad) == 0, lambda: 'column %s row %d is %r; %s of the samples at steps %d..%d is %r' % (out.columns[j], bad[0], got[bad[0]], col[0], col[1], col[2], exp[bad[0]]))
            j += 1
    check(j == out.shape[1], 'unexpected number of generated columns: %d instead of %d' % (out.shape[1], j))


def one(p):
    x = fmt.make_data(p)
    cfg = p['cfg']
    if cfg.get('bins') is None and cfg.get('functions') is None and cfg.get('lags') is None:
        return None
    kw = fmt.make_kwargs(cfg, p['dt'])
    if p['n'] < 3 and not p['give_dt']:
        p = dict(p, give_dt=True)
    dt = pd.Timedelta(minutes=p['dt'])
    tr = pyf.Transformer(list(cfg['names']), dt=dt if p['give_dt'] else None, **kw)
    x0 = x.copy()
    out = quiet(tr.transform, x, augment=False)
    check(x.equals(x0), 'transforming modified the input table')
    check(out.index.equals(x.index), 'generated features are not on the rows of the input')
    check_values(out, x, cfg)
    check_meta(tr.metadata, out.columns, cfg, p['dt'], 'transform')
    # again, augmented
    tr2 = pyf.Transformer(list(cfg['names']), dt=dt if p['give_dt'] else None, **kw)
    aug = quiet(tr2.transform, x, augment=True)
    check(list(aug.columns[:x.shape[1]]) == list(x.columns) and aug.iloc[:, :x.shape[1]].equals(x), 'augmenting changed the original columns')
    check_values(aug.iloc[:, x.shape[1]:], x, cfg)
    # dry run
    for how in ('x', 'dt'):
        t3 = pyf.Transformer(list(cfg['names']), dt=dt if how == 'dt' else (dt if p['give_dt'] else None), **kw)
        quiet(t3.transform, x if how == 'x' else None, simulate=True)
        check_meta(t3.metadata, out.columns, cfg, p['dt'], 'dry run (%s)' % how)
    return [sorted(k for k in cfg if cfg[k] is not None), len(cfg['names']), p['n'] > 20]


def reuse(p):
    """the same declaration used for two data sets with different sampling times"""
    cfg = p['cfg']
    if cfg.get('bins') is None and cfg.get('functions') is None and cfg.get('lags') is None:
        return None
    if cfg.get('agg_form') in ('str', 'td') and 'agg' in cfg:
        cfg = dict(cfg, agg_form='int')
    kw = fmt.make_kwargs(cfg, p['dt'])
    tr = pyf.Transformer(list(cfg['names']), **kw)
    for d in (p['dt'], p['dt'] * 2, p['dt']):
        q = dict(p, dt=d, n=max(p['n'], 20))
        x = fmt.make_data(q)
        out = quiet(tr.transform, x, augment=False)
        check_values(out, x, cfg)
        check_meta(tr.metadata, out.columns, cfg, d, 're-used transformer')
    return [sorted(k for k in cfg if cfg[k] is not None)]


def formatter_level(p):
    x = fmt.make_data(p)
    f = pyf.Formatter(dt=pd.Timedelta(minutes=p['dt']) if p['give_dt'] else None)
    for c in p['cfgs']:
        f.add_transform(list(c['names']), **fmt.make_kwargs(c, p['dt']))
    gx, _ = quiet(f.transform, x, return_target=False, time_features=False)
    for c, tr in zip(p['cfgs'], f.transformers):
        check_meta(tr.metadata, None, c, p['dt'], 'formatter')
        full = pd.DataFrame(index=x.index)
        check(set(tr.metadata.index) <= set(gx.columns), 'a declared feature is missing from the formatted table')
        j = 0
        for nm in c['names']:
            for col in fmt.spec_columns(c, nm):
                cname = tr.metadata.index[j]
                j += 1
                exp = pd.Series(fmt.spec_values(x[nm].values, col), index=x.index).loc[gx.index]
                got = gx[cname]
                if isinstance(got, pd.DataFrame):
                    continue        # two declarations generate the same feature name
                check(close(got.values, exp.values), lambda: 'formatted column %s differs from %s of samples %d..%d' % (cname, *col[:3]))
    # non-anticipativity seen from outside: change everything after a row, nothing at or before it moves
    cut = len(x) // 2
    x2 = x.copy()
    x2.iloc[cut + 1:] += 100.
    f2 = pyf.Formatter(dt=pd.Timedelta(minutes=p['dt']) if p['give_dt'] else None)
    for c in p['cfgs']:
        f2.add_transform(list(c['names']), **fmt.make_kwargs(c, p['dt']))
    gx2, _ = quiet(f2.transform, x2, return_target=False, time_features=False)
    if all(l >= 0 for c in p['cfgs'] for l in (c.get('lags') or [0])) and all(b >= 0 for c in p['cfgs'] for b in (c.get('bins') or [0])):
        common = gx.index[gx.index <= x.index[cut]]
        check(gx2.index[gx2.index <= x.index[cut]].equals(common), 'rows up to a time depend on later samples')
        check(close(gx.loc[common].values, gx2.loc[common].values), 'features of a row depend on later samples')
    # time limits summarise the windows
    lims = quiet(f.get_time_lims)
    ex = [e for c in p['cfgs'] for e in expected_meta(c, p['dt'])]
    check(pd.Timedelta(lims['start_time'].iloc[0]) == min(e[2] for e in ex) and pd.Timedelta(lims['end_time'].iloc[0]) == max(e[3] for e in ex),
          'time limits %s do not enclose the declared windows' % lims.values.tolist())
    return [len(p['cfgs'])]


def gen_formatter(rng, i, tier):
    p = gen(rng, i, tier)
    p['n'] = rng.randint(30, 50)
    p['nans'] = []
    cfgs = []
    for _ in range(rng.choice([1, 2, 3])):
        names = [rng.choice(p['cols'])] if rng.random() < .6 else list(p['cols'][:2])
        c = fmt.gen_cfg(rng, i, names)
        if rng.random() < .6:
            if c.get('lags'):
                c['lags'] = sorted({abs(l) for l in c['lags']})
        cfgs.append(c)
    cfgs = [c for c in cfgs if c.get('bins') is not None or c.get('functions') is not None or c.get('lags') is not None]
    if not cfgs:
        return None
    p['cfgs'] = cfgs
    return p


def gen_reuse(rng, i, tier):
    p = gen(rng, i, tier)
    p['give_dt'] = False
    return p


def gen_nonnested(rng, i, tier):
    p = gen(rng, i, tier)
    k = rng.choice([2, 3, 4])
    c = dict(names=p['cfg']['names'], bins=sorted(rng.sample(range(0, 9), k)), nested=False,
             functions=rng.sample(['mean', 'min', 'max', 'sum', 'median'], rng.choice([1, 2])))
    if rng.random() < .5:
        c['lags'] = sorted(rng.sample(range(0, 5), 2))
    p.update(cfg=c, nans=[], n=rng.randint(15, 30))
    return p


RULE = 'random declarations (lags of either sign, windows given as text/number/duration, relative lags, bins, functions) on random regular tables; distinct = distinct set of declared options'
CASES = [Case('transformer', gen, one, 140, 3000, rule=RULE),
         Case('reuse', gen_reuse, reuse, 30, 400, rule=RULE),
         Case('nonnested', gen_nonnested, one, 12, 200, rule=RULE),
         Case('formatter', gen_formatter, formatter_level, 40, 800, rule=RULE)]
