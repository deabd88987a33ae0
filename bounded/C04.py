from common import *
import fmt
import pyforecaster.formatter as pyf

# expression, inverse, both as functions of the value and the normalisers
EXPR = {
    'shift': ("df[t] - df['m']", "df[t] + df['m']", lambda v, m, s: v - m),
    'scale': ("df[t] / (df['m'].abs() + 1)", "df[t] * (df['m'].abs() + 1)", lambda v, m, s: v / (np.abs(m) + 1)),
    'z': ("(df[t] - df['m']) / (df['s'].abs() + 1)", "df[t] * (df['s'].abs() + 1) + df['m']", lambda v, m, s: (v - m) / (np.abs(s) + 1)),
    'cube': ("(df[t] - df['s'])**3", "np.cbrt(df[t]) + df['s']", lambda v, m, s: (v - s)**3),
}


def build(p, norm):
    f = pyf.Formatter(dt=pd.Timedelta(minutes=p['dt']))
    for c in p['cfgs']:
        f.add_transform(list(c['names']), **fmt.make_kwargs(c, p['dt']))
    for c in p['tcfgs']:
        f.add_target_transform(list(c['names']), **fmt.make_kwargs(c, p['dt']))
    if norm:
        e, inv, _ = EXPR[p['expr']]
        f.add_target_normalizer(p['signal'], function='mean', agg_freq='%dmin' % (p['wm'] * p['dt']), lags=p['lagm'], name='m')
        f.add_target_normalizer([p['signal2'] or p['signal']], function='std' if p['ws'] > 1 else 'max', agg_freq='%dmin' % (p['ws'] * p['dt']), name='s')
        f.add_normalizing_fun(e, inv)
    return f


def run(p):
    x = fmt.make_data(dict(p, nans=[]))
    x0 = x.copy()
    f0, f = build(p, False), build(p, True)
    g0, t0 = quiet(f0.transform, x, time_features=False)
    g, t = quiet(f.transform, x, time_features=False)
    check(x.equals(x0), 'formatting modified the input table')
    names = [n for tr in f0.transformers for n in tr.metadata.index]
    tnames = [n for tr in f0.target_transformers for n in tr.metadata.index]
    if len(set(names)) < len(names) or len(set(tnames)) < len(tnames) or len(g) == 0:
        return None
    check(g.index.equals(t.index) and g.index.isin(g0.index).all(), 'rows of normalised tables')
    ix = g.index
    v1 = x[p['signal']].values
    m = pd.Series(fmt.spec_values(v1, ('mean', -(p['lagm'] or 0) - p['wm'] + 1, -(p['lagm'] or 0))), index=x.index).loc[ix].values
    s = pd.Series(fmt.spec_values(x[p['signal2'] or p['signal']].values, ('std' if p['ws'] > 1 else 'max', -p['ws'] + 1, 0)), index=x.index).loc[ix].values
    check(close(g['m'].values, m) and close(g['s'].values, s), 'normaliser columns')
    fun = EXPR[p['expr']][2]
    normed = {p['signal'], p['signal2'] or p['signal']}
    for trs, a, b, what in ((f0.transformers, g0, g, 'feature'), (f0.target_transformers, t0, t, 'target')):
        for tr in trs:
            for n, src in zip(tr.metadata.index, tr.metadata['name']):
                v = a.loc[ix, n].values
                exp = fun(v, m, s) if src in normed else v
                check(close(b[n].values, exp), lambda: '%s %s (from %s) %s' % (what, n, src, 'is not the normalised value' if src in normed else 'was changed by the normalisation of %s' % sorted(map(str, normed))))
    for c in x.columns:
        check(close(g[c].values, x.loc[ix, c].values), 'original column %s changed' % c)
    # without targets: the features are normalised the same way
    g2, _ = quiet(build(p, True).transform, x, time_features=False, return_target=False)
    check(close(g2.loc[ix, names].values, g[names].values), 'features normalised differently when targets are not requested')
    # undo
    gi, ti = g.copy(), t.copy()
    back = quiet(f.denormalize, g, t)
    check(g.equals(gi), 'denormalising changed the feature table')
    check(list(back.columns) == list(t.columns) and back.index.equals(ix) and close(back.values, t0.loc[ix].values, rtol=1e-5, atol=1e-6), 'denormalised target differs from the un-normalised target')
    # a table of quantiles: each level is denormalised like a target
    lev = p['levels']
    tq = pd.concat({(n, q): t[n] + q for n in t.columns for q in lev}, axis=1)
    keep = tq.copy()
    bq = quiet(f.denormalize, g, tq)
    check(tq.equals(keep), 'denormalising changed the passed quantile table')
    for q in lev:
        e = quiet(f.denormalize, g, ti + q)
        for n in t.columns:
            check(close(bq[(n, q)].values, e[n].values), 'level %s of target %s is not denormalised like the target' % (q, n))
    if p['sub']:
        # some rows only
        r = ix[::3]
        b2 = quiet(f.denormalize, g.loc[r], ti.loc[r])
        check(close(b2.values, back.loc[r].values), 'denormalising some rows differs from denormalising all')
    return [p['expr'], len(p['cfgs']), len(p['tcfgs']), p['signal2'] is not None, p['lagm']]


def gen(rng, i, tier):
    cols = ['a', 'b', 'c']
    sig = rng.choice(['a', 'a', 'b'])
    cfgs = [fmt.gen_cfg(rng, i, [rng.choice(cols)] if rng.random() < .5 else rng.sample(cols, 2)) for _ in range(rng.choice([1, 2, 3]))]
    cfgs = [c for c in cfgs if c.get('bins') is not None or c.get('functions') is not None or c.get('lags') is not None]
    for c in cfgs:
        if 'lags' in c:
            c['lags'] = [l for l in c['lags']]
    tcfgs = [dict(names=[sig], lags=[-1, -2][:rng.choice([1, 2])])]
    if rng.random() < .6:
        other = rng.choice([c for c in cols if c != sig])
        tcfgs.append(dict(names=[other], lags=[-1, -3][:rng.choice([1, 2])]))
        if rng.random() < .5:
            tcfgs = tcfgs[::-1]
    if rng.random() < .3:
        tcfgs = [dict(names=sorted({n for c in tcfgs for n in c['names']}), lags=[-1])]
    return dict(seed=rng.randrange(10**6), n=rng.randint(30, 60), dt=rng.choice([10, 60]), tz=rng.choice([None, 'Europe/Zurich']), cols=cols, cfgs=cfgs, tcfgs=tcfgs,
                signal=sig, signal2=rng.choice([None, None, 'b', 'c']), expr=rng.choice(list(EXPR)), wm=rng.randint(1, 6), ws=rng.randint(2, 5),
                lagm=rng.choice([None, 1, 3]), levels=[0.1, 0.5, 0.9][:rng.choice([1, 2, 3])], sub=rng.random() < .5)


RULE = 'random declarations, four invertible expressions, one or two normalised signals; distinct = distinct (expression, numbers of declarations, second signal, lag)'
CASES = [Case('normalise', gen, run, 100, 1500, rule=RULE)]
