"""C24: class probabilities, for every training table and request; the classes and the number of targets are enumerated."""
from core import *
from core import _fn
import types, time
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['np.unique returns the distinct target values in increasing order; the sets of classes are enumerated (one to eleven classes, negative, fractional, unsorted) and every target is one of them',
               'time of day (floor to the sampling time) is an uninterpreted function of the time label', 'x.index.drop_duplicates().diff().median() is the sampling time (some fixed step)',
               'the request only asks for times of day present in the training rows', 'real arithmetic instead of floating point', 'numpy and pandas operations as modelled in pydv/arr.py and pydv/frame.py']
F = 'pyforecaster.forecasting_models.benchmarks'
FF = 'pyforecaster/forecasting_models/benchmarks.py: DiscreteDistr.'
SETS = {'one class': [2.], 'two classes': [0., 1.], 'signed classes': [-1.5, 0., 3.], 'eleven classes': [float(i) for i in range(11)]}


def W(h, m):
    return [dict(case='distribution', params=dict(sup=sup, dt=dt, ny=ny, days=3, req=req, seed=i, names=nm, off=0, tz=None))
            for i, (sup, dt, ny, req, nm) in enumerate([([0, 1, 2], 60, 2, 'all', ['z', 'm', 'a']), ([-1, 0, 3], 30, 3, 'shuffled', ['a', 'b', 'c']), ([10, 2, 33, 4], 120, 1, 'later', ['load_t+1', 'load_t+2', 'load_t+10']),
                                                        ([1], 60, 2, 'one', ['a', 'b', 'c']), (list(range(12)), 60, 2, 'repeated', ['z', 'm', 'a'])])]


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


STEP = 3600 * 10 ** 9


def fitted(h, sup, names):
    f = h.module(F)
    n = sint('rows', 2)
    ix = frame.time_index('t', n, False)
    ix.drop_duplicates = lambda *a, **k: types.SimpleNamespace(diff=lambda *a, **k: types.SimpleNamespace(median=lambda: STEP))
    cls = symbolic('class', (n, len(names)), 'i')
    K = len(sup)
    h.assume(forall(lambda i: And(*[And(cls.read(i, j) >= 0, cls.read(i, j) < K) for j in range(len(names))]), (0, n)))
    val = A.chain_s([lift(v) for v in sup])
    sn = cls.snapshot()
    y = frame.Frame([A.Arr((n,), (lambda j: lambda i: val(sn(i, j)))(j), 'f') for j in range(len(names))], ix, pd.Index(names))
    keep = [c.copy() for c in y.cl]

    def uniq(a, **k):
        if k or not (isinstance(a, A.Arr) and a.ndim == 2 and sym.prove(list(ctx().path), equal_arrays(a, y.values), want_model=False).status == 'proved'):
            raise Unsupported('distinct values of something else')
        return np.array(sorted(sup))
    f.np = NPWith(f.np, unique=uniq)
    x = frame.Frame([symbolic('f', (n,))], ix, pd.Index(['f']))
    m = f.DiscreteDistr(q_vect=np.array([.125, .5, .875]))
    r = m.fit(x, y)
    h.ensure('fit returns the model', lift(r is m))
    h.ensure('table of the caller unchanged', And(*[equal_arrays(a, b) for a, b in zip(keep, y.cl)]))
    return f, m, n, ix, sn, y


def alone(h, name, goal):
    """a law of numbers, shown without the rest of the path where possible"""
    t0 = time.time()
    p = sym.prove([], goal, 5000, 2)
    if p.status == 'proved':
        h.report(name, 'proved', '', 'z3 (arithmetic alone)', seconds=time.time() - t0)
    else:
        h.ensure(name, goal)


def mention(h, n, member, i):
    """the rank of row i among the members (its axiom: a member has a rank below their number)"""
    j = sym.fresh(z3.IntSort(), 'm')
    h.assume(S(sym.RANK(sym.close(j, z3.simplify(boolterm(member(S(j))))), numterm(n), numterm(i)) == sym.fresh(z3.IntSort(), 'rank')))


for _nm, _sup in SETS.items():
    for _names in (['a'], ['z', 'm', 'a'][:2]):
        if _nm == 'eleven classes' and len(_names) > 1:
            continue

        @contract('probabilities and forecast: %s, %d target%s' % (_nm, len(_names), 's' if len(_names) > 1 else ''), [FF + 'fit', FF + 'predict_probabilities', FF + 'predict'], W)
        def _p(h, sup=_sup, names=_names):
            K, val = len(sup), A.chain_s([lift(v) for v in sup])
            f, m, n, ix, sn, y = fitted(h, sup, names)
            q = sint('asked', 1)
            rx = frame.time_index('s', q, False)
            xr = frame.Frame([symbolic('g', (q,))], rx, pd.Index(['f']))
            pr, yh = m.predict_probabilities(xr), m.predict(xr)
            h.ensure('rows of the probabilities are those of the request', lift(bool(pr.index.same(rx))))
            h.ensure('rows of the forecast are those of the request', lift(bool(yh.index.same(rx))))
            order = sorted(range(K), key=lambda k: sup[k])
            h.ensure('one probability per target and class, classes in order', lift(bool(sorted(set(pr.columns.get_level_values(0))) == sorted(names) and all([float(v) for v in pr[t].columns] == sorted(sup) for t in names))))
            h.ensure('forecast columns', lift(bool(sorted(yh.columns) == sorted(names))))
            tod = lambda ix_, i: S(frame.TOD(frame.FLOOR(numterm(ix_.key(i)), z3.IntVal(STEP))))
            i = sint('row', 0)
            h.assume(i < q)
            seen, i0 = A.find(n, lambda r: tod(ix, r), tod(rx, i))
            h.assume(seen)                                     # this time of day was seen
            for j, t in enumerate(names):
                p = [lift(pr[t].cl[k].read(i)) for k in range(K)]
                cnt = []
                for k in range(K):
                    mention(h, n, lambda r: And(tod(ix, r) == tod(rx, i), A.scmp('==', val(sn(r, j)), sup[order[k]])), i0)
                    cnt.append(A.reduce_1('count', n, lambda r: lift(1), member=lambda r: And(tod(ix, r) == tod(rx, i), A.scmp('==', val(sn(r, j)), sup[order[k]]))))
                h.ensure('%s: no missing probability' % t, And(*[Not(S(v.nan)) if v.nan is not None else lift(True) for v in p]))
                h.ensure('%s: probabilities are not negative' % t, And(*[S(v.t) >= 0 for v in p]))
                # the numbers of rows enter only as non-negative numbers, one of them positive (shown first)
                h.ensure('%s: some class was observed at that time of day' % t, Or(*[c >= 1 for c in cnt]))
                fresh = [sym.fresh(z3.RealSort(), 'count') for _ in cnt]
                T = sym.fresh(z3.RealSort(), 'total')
                sub = [(z3.simplify(sym.real(c.t)), v) for c, v in zip(cnt, fresh)]
                facts = z3.And(*[v >= 0 for v in fresh], T == z3.Sum(fresh), T >= 1, *[v <= T for v in fresh])
                hold = []
                for k in range(K):
                    d = S(z3.simplify(z3.substitute(z3.simplify(p[k].t), *sub))) - S(fresh[k]) / S(T)
                    hold.append(Implies(S(facts), And(d <= lift(2. ** -30), d >= -lift(2. ** -30))))
                    alone(h, '%s: probability %d is the observed frequency at that time of day' % (t, k), hold[-1])
                q_ = [sym.fresh(z3.RealSort(), 'p') for _ in range(K)]
                near = z3.And(*[z3.And(a - b <= z3.RealVal(2. ** -30), b - a <= z3.RealVal(2. ** -30)) for a, b in zip(q_, [v * (1 / T) for v in fresh])])
                dif = z3.Sum(q_) - 1
                alone(h, '%s: probabilities add up to one' % t, Implies(And(S(facts), S(near)), And(S(dif) <= lift(2. ** -26), S(dif) >= -lift(2. ** -26))))
                e = lift(0)
                for k in range(K):
                    e = e + S(p[k].t) * sup[order[k]]
                v = lift(yh.col(t).a.read(i))
                h.ensure('%s: the forecast is the expectation' % t, S(v.t) == e)
                h.ensure('%s: the forecast is not missing' % t, Not(S(v.nan)) if v.nan is not None else lift(True))
