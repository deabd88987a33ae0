from common import *
import fmt
import pyforecaster.formatter as pyf
from C01 import gen_formatter


def all_columns(cfgs):
    return [(c, nm, col) for c in cfgs for nm in c['names'] for col in fmt.spec_columns(c, nm)]


def distinct_names(fs):
    names = [n for t in fs for n in t.metadata.index]
    return len(set(names)) == len(names)


def build(p, augment=True):
    f = pyf.Formatter(dt=pd.Timedelta(minutes=p['dt']) if p['give_dt'] else None, augment=augment)
    for c in p['cfgs']:
        f.add_transform(list(c['names']), **fmt.make_kwargs(c, p['dt']))
    for c in p['tcfgs']:
        k = fmt.make_kwargs(c, p['dt'])
        f.add_target_transform(list(c['names']), **k)
    return f


def check_clock(g, tz):
    for k, v in dict(hour=[t.hour for t in g.index], dayofweek=[t.dayofweek for t in g.index],
                     minuteofday=[t.hour * 60 + t.minute for t in g.index]).items():
        check(k in g.columns and close(g[k].values, v), 'calendar column %s is not the clock of its row' % k)
    if tz is not None:
        off = [t.utcoffset().total_seconds() / 3600 for t in g.index]
        check('utc_offset' in g.columns and close(g['utc_offset'].values, off), 'utc_offset is not the offset of its row')


def run(p):
    x = fmt.make_data(p)
    x0 = x.copy()
    f = build(p)
    complete = np.all([~np.isnan(fmt.spec_values(x[nm].values, col)) for _, nm, col in all_columns(p['cfgs']) + all_columns(p['tcfgs'])], axis=0)
    tf = p['tf'] and complete.any()       # precondition of the calendar columns: at least one row is left
    g, t = quiet(f.transform, x, time_features=tf)
    check(x.equals(x0), 'formatting modified the input table')
    if not distinct_names(f.transformers) or not distinct_names(f.target_transformers):
        return None
    feats, targs = {}, {}
    j = 0
    fn = [n for tr in f.transformers for n in tr.metadata.index]
    tn = [n for tr in f.target_transformers for n in tr.metadata.index]
    for name, (c, nm, col) in zip(fn, all_columns(p['cfgs'])):
        feats[name] = fmt.spec_values(x[nm].values, col)
    for name, (c, nm, col) in zip(tn, all_columns(p['tcfgs'])):
        targs[name] = fmt.spec_values(x[nm].values, col)
    F, T = pd.DataFrame(feats, index=x.index), pd.DataFrame(targs, index=x.index)
    okf, okt = ~F.isna().any(axis=1).values, ~T.isna().any(axis=1).values
    exp = x.index[okf & okt]
    check(g.index.equals(exp), lambda: 'feature rows: %d kept, %d rows have all features and targets (first difference near %s)' % (
        len(g), len(exp), list(g.index.symmetric_difference(exp)[:2])))
    check(t.index.equals(exp), 'target rows differ from the feature rows')
    check(sorted(map(str, t.columns)) == sorted(map(str, tn)), 'target columns are %s' % list(t.columns))
    check(not t.isna().any().any(), 'missing values left in the targets')
    check(not g[fn].isna().any().any(), 'missing values left in the features')
    for n in tn:
        check(close(t[n].values, T.loc[exp, n].values), 'target column %s has the values of other rows' % n)
    for n in fn:
        check(close(g[n].values, F.loc[exp, n].values), 'feature column %s has the values of other rows' % n)
    for n in x.columns:
        check(close(g[n].values, x.loc[exp, n].values), 'original column %s changed' % n)
    if tf:
        check_clock(g, p['tz'])
    # without targets: same values, only rows with incomplete features dropped
    f2 = build(p) if p['fresh'] else f
    g2, _ = quiet(f2.transform, x, time_features=tf, return_target=False)
    exp2 = x.index[okf]
    check(g2.index.equals(exp2), 'without targets %d rows are kept, %d rows have all features' % (len(g2), len(exp2)))
    for n in fn + list(x.columns):
        check(close(g2.loc[exp, n].values, g[n].values), 'feature %s differs when targets are not requested' % n)
        check(close(g2[n].values, (F[n] if n in F else x[n]).loc[exp2].values), 'feature %s wrong without targets' % n)
    # generated features only
    if len(fn):
        f3 = build(p, augment=False)
        g3, t3 = quiet(f3.transform, x, time_features=False)
        check(list(g3.columns) == fn and g3.index.equals(exp) and close(g3.values, g[fn].values), 'augment=False differs from the generated columns')
    return [len(p['cfgs']), len(p['tcfgs']), bool(p['nans']), int(len(exp) > 0), p['tz']]


def gen(rng, i, tier):
    p = gen_formatter(rng, i, tier)
    if p is None:
        return None
    names = p['cols']
    p['tcfgs'] = [fmt.gen_cfg(rng, i, [rng.choice(names)], target=True) for _ in range(rng.choice([1, 1, 2]))]
    p['nans'] = [] if rng.random() < .4 else [[rng.randrange(1000), rng.randrange(len(names))] for _ in range(rng.choice([1, 2, 3]))]
    p['n'] = rng.randint(25, 60)
    p['tf'] = rng.random() < .6
    p['fresh'] = rng.random() < .5
    if rng.random() < .5:
        p['cfgs'] = p['cfgs'][:1]
    return p


def run_global(p):
    """global form = the stacked per-signal formatting"""
    rs = np.random.default_rng(p['seed'])
    idx = whole_index(p['n'], p['dt'], tz=p['tz'])
    x = pd.DataFrame(rs.normal(size=(p['n'], len(p['cols']) + 1)), index=idx, columns=p['cols'] + ['shared'])
    def mk():
        f = pyf.Formatter()
        f.add_transform(['target'], lags=p['lags'], agg_freq='%dmin' % (2 * p['dt']), functions=['mean'])
        f.add_transform(['shared'], lags=[1])
        f.add_target_transform(['target'], lags=p['tlags'])
        return f
    g, t = quiet(mk().transform, x, global_form=True, time_features=p['tf'], reduce_memory=p['rm'], corr_reorder=False)
    check(g.index.equals(t.index), 'stacked features and targets are not on the same rows')
    pos = 0
    for c in p['cols']:
        xc = pd.DataFrame({'target': x[c].values, 'shared': x['shared'].values}, index=idx)
        gc, tc = quiet(mk().transform, xc, time_features=p['tf'])
        gi, ti = g.iloc[pos:pos + len(gc)], t.iloc[pos:pos + len(tc)]
        pos += len(gc)
        check(gi.index.equals(gc.index) and (gi['name'] == c).all(), 'rows of signal %s are not stacked in one block' % c)
        for k in gc.columns:
            check(close(gi[k].values, gc[k].values, rtol=1e-4, atol=1e-5), 'column %s of signal %s differs in global form' % (k, c))
        check(close(ti[tc.columns].values, tc.values, rtol=1e-4, atol=1e-5), 'targets of signal %s differ in global form' % c)
    check(pos == len(g), 'unexpected rows in the stacked table')
    return [len(p['cols']), p['rm']]


def gen_global(rng, i, tier):
    return dict(seed=rng.randrange(10**6), n=rng.randint(20, 40), dt=rng.choice([10, 60]), tz=rng.choice([None, 'Europe/Zurich']),
                cols=['s%d' % k for k in range(rng.choice([1, 2, 3]))], lags=rng.sample(range(0, 6), 2), tlags=[-1, -2][:rng.choice([1, 2])],
                tf=rng.random() < .5, rm=rng.random() < .5)


def run_clock(p):
    idx = whole_index(p['n'], p['dt'], start=p['start'], tz=p['tz'])
    x = pd.DataFrame(np.arange(p['n'] * 2.).reshape(-1, 2), index=idx, columns=['a', 'b'])
    f = pyf.Formatter()
    g, _ = quiet(f.transform, x, time_features=True, return_target=False, holidays=p['hol'])
    check(g.index.equals(idx), 'rows lost')
    check_clock(g, p['tz'])
    check(close(g[['a', 'b']].values, x.values), 'calendar columns changed the data')
    if p['hol']:
        import holidays as hd
        hs = hd.country_holidays(country='CH', years=sorted(set(idx.year)))
        for t, v in zip(g.index, g['holidays']):
            check((v == 3) == (t.date() in hs), 'row %s is marked %s, public holiday: %s' % (t, v, t.date() in hs))
    # later calls with the same formatter follow the rows they are given
    idx2 = whole_index(p['n'], p['dt'], start=p['start2'], tz=p['tz'])
    g2, _ = quiet(f.transform, x.set_index(idx2), time_features=True, return_target=False)
    check_clock(g2, p['tz'])
    return [p['tz'], p['hol'], p['dt']]


def gen_clock(rng, i, tier):
    return dict(n=rng.randint(5, 80), dt=rng.choice([15, 60, 47, 60 * 7]), tz=rng.choice([None, 'Europe/Zurich', 'America/New_York', 'Asia/Kolkata']),
                start=rng.choice(['2021-03-26 22:00', '2020-10-23 13:30', '2021-12-23', '2021-06-01 00:15']),
                start2=rng.choice(['2021-03-26 22:00', '2020-10-23 13:30', '2021-07-23']), hol=rng.random() < .4)


RULE = 'random transform and target declarations on random regular tables with up to three missing cells; distinct = distinct (numbers of declarations, missing cells, rows left, time zone)'
CASES = [Case('format', gen, run, 120, 2500, rule=RULE), Case('global', gen_global, run_global, 12, 150, rule=RULE),
         Case('clock', gen_clock, run_clock, 30, 300, rule=RULE)]
