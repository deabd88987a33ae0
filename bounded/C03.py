from common import *
import fmt
import pyforecaster.formatter as pyf


def make_index(p):
    rs = np.random.default_rng(p['seed'])
    if p['regular']:
        return whole_index(p['n'], p['dt'], tz=p['tz'])
    steps = rs.integers(1, 5, size=p['n'] - 1) * p['dt'] * 60
    if p.get('ragged'):
        steps = steps + rs.integers(0, 50, size=p['n'] - 1)
    return pd.DatetimeIndex(pd.Timestamp('2021-01-05 03:00', tz=p['tz']) + pd.to_timedelta(np.r_[0, np.cumsum(steps)], unit='s'))


def run(p):
    idx = make_index(p)
    dt = pd.Timedelta(minutes=p['dt'])
    f = pyf.Formatter(dt=dt)
    for c in p['cfgs']:
        f.add_transform(list(c['names']), **fmt.make_kwargs(c, p['dt']))
    exp_meta = [(nm, lo * dt, hi * dt + dt) for c in p['cfgs'] for nm in c['names'] for _, lo, hi in (k[:3] for k in fmt.spec_columns(c, nm))]
    D = max(abs(s) for _, s, _ in exp_meta)
    T = idx[-1] - idx[0]
    W = T / (p['k'] - 1)
    x = fmt.make_data(dict(p, n=40, nans=[]))
    if p['prefit']:
        quiet(f.transform, x, return_target=False, time_features=False)
    try:
        folds = [(np.asarray(a), np.asarray(b)) for a, b in quiet(lambda: list(f.time_kfcv(idx, p['k'], p['mf'], x=x)))]
    except RuntimeError:
        check(D > W - pd.Timedelta(1, 'us'), 'folds refused although the deadband %s fits in the test window %s' % (D, W))
        return ['refused']
    eps = pd.Timedelta(1, 'us')
    check(D <= W + eps, 'deadband %s longer than the test window %s accepted' % (D, W))
    m = p['k'] * p['mf']
    check(len(folds) == m, '%d folds instead of %d' % (len(folds), m))
    covered = np.zeros(len(idx), dtype=bool)
    for j, (tr, te) in enumerate(folds):
        check(tr.shape == (len(idx),) and te.shape == (len(idx),) and tr.dtype == bool and te.dtype == bool, 'fold %d is not a pair of row masks' % j)
        start = idx[0] + (T - W) * (j / max(m - 1, 1))
        end = start + W
        for r, t in enumerate(idx):
            d_in = min(t - start, end - t)            # > 0 strictly inside
            if abs(d_in) > eps:
                check(te[r] == (d_in > pd.Timedelta(0)), lambda: 'fold %d row %s: test=%s, window [%s, %s]' % (j, t, te[r], start, end))
            dist = max(start - t, t - end)
            if abs(dist - D) > eps:
                check(tr[r] == (dist > D), lambda: 'fold %d row %s: train=%s at distance %s from the window, look-back %s' % (j, t, tr[r], dist, D))
            else:
                check(not (tr[r] and dist < D - eps), 'row too close used for training')
        check(not np.any(tr & te), 'fold %d: rows both in train and test' % j)
        covered |= te
        # no look-back feature of a training row reads a test sample
        tt = idx[te]
        if len(tt):
            for _, s, e in exp_meta:
                if e <= dt:
                    for t in idx[tr]:
                        k0, k1 = tt.searchsorted(t + s, 'left'), tt.searchsorted(min(t + e, t + eps), 'left')
                        check(k0 >= k1, lambda: 'fold %d: training row %s reads test sample %s' % (j, t, tt[k0]))
    check(covered.all(), lambda: 'rows never tested: %s' % list(idx[~covered][:3]))
    return [p['k'], p['mf'], p['regular'], p['tz'], len(p['cfgs'])]


def gen(rng, i, tier):
    cfgs = []
    cols = ['a', 'b']
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = fmt.gen_cfg(rng, i, [rng.choice(cols)])
        cfgs.append(c)
    return dict(seed=rng.randrange(10**6), n=rng.randint(20, 160), dt=rng.choice([1, 15, 60]), tz=rng.choice([None, 'Europe/Zurich']), cols=cols,
                cfgs=cfgs, k=rng.choice([2, 3, 4, 5, 7]), mf=rng.choice([1, 1, 2, 3]), regular=rng.random() < .6, ragged=rng.random() < .5, prefit=rng.random() < .5)


RULE = 'random declarations, regular and irregular increasing indexes, fold counts and multipliers; distinct = distinct (folds, multiplier, regularity, zone, number of declarations)'
CASES = [Case('folds', gen, run, 120, 2500, rule=RULE)]
