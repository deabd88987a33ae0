"""Contracts: harness, path enumeration, obligations."""
import os, sys, time, traceback
import numpy as np
import z3
import sym, arr, load
from sym import trunc_int as trunc
from sym import S, Ctx, Unsupported, PathEnd, lift, ctx, And, Or, Not, Implies, ite, same, forall, sint, sreal, sbool, numterm, boolterm
from arr import Arr, norm, as_arr, symbolic, equal_arrays, sum_over, reduce_1, implied
from load import Seq, SList, Loop, LoopSpec, same_value

CONTRACTS = []


class Contract:
    def __init__(self, fn, name, functions, witness, unbounded, timeout):
        self.fn, self.name, self.functions, self.witness, self.unbounded, self.timeout = fn, name, functions, witness, unbounded, timeout


def contract(name, functions, witness=None, unbounded=True, timeout=10000):
    def reg(f):
        CONTRACTS.append(Contract(f, name, functions, witness, unbounded, timeout))
        return f
    return reg


class Obligation:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.status = 'proved'
        self.proofs = []
        self.info = {}


class Harness:
    def __init__(self, c, loader_factory, tier):
        self.c, self.tier = c, tier
        self.obl = {}
        self.loader_factory = loader_factory
        self.loops = {}
        self.digests = {}
        self.assumptions = []
        self.reached = 0
        self.paths = 0
        self.solver0 = 0.
        self.done, self.nth = set(), 0

    # ---- for contracts
    def module(self, name):
        m = self.loader.load(name)
        self.digests.update(self.loader.digests)
        return m

    def assume(self, c):
        ctx().assume(c)

    def prefer(self, *c):
        self.pref += [boolterm(x) for x in c]

    def note(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def loop(self, mod, where, spec):
        self.loops[(mod,) + where] = spec

    def loop_spec(self, mod, where):
        return self.loops.get((mod,) + tuple(where))

    def patch(self, obj, name, value):
        setattr(obj, name, value)

    def ensure(self, name, goal, hyps=(), loop=False, timeout=None, depth=2):
        o = self.obl.setdefault(name, Obligation(name))
        C = ctx()
        self.nth += 1
        key = (name, self.nth, tuple(C.taken))
        if key in self.done:
            return
        o.paths += 1
        o.loop = loop
        if time.time() > self.deadline:
            o.status = 'unknown'
            o.info = dict(reason='time budget of the contract used up')
            return
        if isinstance(goal, (bool, np.bool_)):
            goal = S(z3.BoolVal(bool(goal)))
        if not getattr(self, '_sat_ok', None) or self._sat_ok != len(C.path):
            r = C.solver.check()
            if r == z3.unsat:
                return          # infeasible path: nothing to show
            self._sat_ok = len(C.path)
            self.reached += r == z3.sat
        p = sym.prove(list(C.path) + [boolterm(h) for h in hyps], goal, timeout or self.c.timeout, depth)
        o.proofs.append(p)
        if os.environ.get('PYDV_DEBUG'):
            print('      %5.1fs path %s %s %s' % (p.time, ''.join(str(int(x)) for x in C.taken), p.status, name), flush=True)
        if p.status == 'proved':
            self.done.add(key)
            return
        if os.environ.get('PYDV_DEBUG') == '2':
            print('   GOAL', z3.simplify(boolterm(goal)))
            for q in C.path: print('   HYP', z3.simplify(q))
        rank = dict(proved=0, unknown=1, unsupported=1, refuted=2)
        if rank[p.status] >= rank[o.status]:
            o.status = p.status
            o.info = dict(reason=p.reason, exact=p.exact and not C.inexact and not loop, model=None)
            if p.status == 'refuted':
                m = p.model
                if self.pref:
                    q = sym.prove(list(C.path) + [boolterm(h) for h in hyps] + self.pref, goal, 4000, depth)
                    if q.status == 'refuted':
                        m = q.model
                o.info['model'] = str(m)[:1500]
                if self.c.witness:
                    try:
                        w = self.c.witness(self, m)
                        o.info['witness'] = w if isinstance(w, list) else [w] if w else []
                    except Exception as e:
                        o.info['witness_error'] = '%s: %s' % (type(e).__name__, e)

    def report(self, name, status, reason='', backend='', exact=False, witness=None, seconds=0.):
        """an obligation decided by another back end"""
        o = self.obl.setdefault(name, Obligation(name))
        o.paths += 1
        o.loop = False
        self.reached += 1
        o.proofs.append(sym.Proof(status, reason=reason, backend=backend, time=seconds, exact=exact))
        rank = dict(proved=0, unknown=1, unsupported=1, refuted=2)
        if status != 'proved' and rank[status] >= rank[o.status]:
            o.status = status
            o.info = dict(reason=reason, exact=exact, model=reason, witness=witness or [])

    def ensure_mat(self, name, a, b, rules=(), dim=None, witness=None):
        """a == b for all matrices of all sizes, by normal form; a difference is confirmed on generic matrices"""
        import mat
        t0 = time.time()
        if tuple(map(str, a.shape)) != tuple(map(str, b.shape)):
            return self.report(name, 'refuted', 'shape %s instead of %s' % (a.shape, b.shape), 'normal form', True, witness)
        ok, rem = mat.equal(a, b, rules)
        if ok:
            return self.report(name, 'proved', '', 'normal form (non-commutative rewriting)', seconds=time.time() - t0)
        gap = mat.numeric_gap(a - b, dim or {}, np.random.default_rng(0)) if dim else 1.
        if gap > 1e-8:
            return self.report(name, 'refuted', 'the difference is %r; on generic matrices its largest entry is %.3g' % (rem, gap), 'normal form (non-commutative rewriting)', True, witness, time.time() - t0)
        return self.report(name, 'unknown', 'remainder %r' % rem, 'normal form (non-commutative rewriting)', False, None, time.time() - t0)

    def ensure_psd(self, name, m, witness=None):
        import mat
        ok = mat.psd(m, mat.POS[0])
        self.report(name, 'proved' if ok else 'unknown', '' if ok else 'not a sum of congruences of positive semidefinite matrices by its words: %r' % m, 'congruence rule', False)

    def raises(self, exc, f, *a, **k):
        """does the call raise exc on this path?"""
        try:
            f(*a, **k)
        except exc:
            return True
        return False

    def val(self, model, v, default=0):
        """concrete value of a term in a model"""
        if isinstance(v, (int, float, str, bool)):
            return v
        v = lift(v)
        if v.nan is not None and z3.is_true(model.eval(v.nan, model_completion=True)):
            return float('nan')
        t = model.eval(v.t, model_completion=True)
        c = S(t).concrete()
        if c is None and z3.is_algebraic_value(t):
            c = float(t.approx(12).as_fraction())
        return default if c is None else c

    def arr_val(self, model, a, limit=64):
        a = as_arr(a)
        sh = [min(int(self.val(model, d)), limit) for d in a.shape]
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            out[i] = self.val(model, a.read(*i))
        return out.tolist()

    # ---- running
    def run(self, budget):
        t0 = time.time()
        self.deadline = t0 + budget
        pending = [[]]
        load._H[0] = self
        n = 0
        fail = None
        while pending:
            pre = pending.pop()
            n += 1
            if n > 400 or time.time() > self.deadline:
                fail = ('unknown', 'path or time budget used up after %d paths' % n)
                break
            C = Ctx(pre)
            Ctx.cur = C
            sym.reset_axioms()
            self.pref, self.nth = [], 0
            self._sat_ok = None
            self.loader = self.loader_factory()
            self.loops = {}
            try:
                self.c.fn(self)
            except PathEnd:
                pass
            except Unsupported as e:
                if C.solver.check() != z3.unsat:
                    fail = ('unsupported', '%s%s' % (e, where(e)))
            except (ValueError, IndexError, KeyError, AssertionError, ZeroDivisionError, RuntimeError, NotImplementedError, StopIteration) as e:
                if foreign(e):
                    fail = ('unsupported', 'library call: %s: %s%s' % (type(e).__name__, e, where(e)))
                else:
                    self.exception(C, e)
            except (TypeError, AttributeError, NameError) as e:
                fail = ('unsupported', '%s: %s%s' % (type(e).__name__, str(e)[:200], where(e)))
            except RecursionError as e:
                fail = ('unsupported', 'recursion')
            except z3.Z3Exception as e:
                if os.environ.get('PYDV_DEBUG') == '3': traceback.print_exc()
                fail = ('unsupported', 'z3: %s%s' % (str(e)[:200], where(e)))
            pending += C.pending
            if fail and fail[0] == 'unsupported':
                break
        Ctx.cur = None
        self.paths = n
        out = []
        for o in self.obl.values():
            st = o.status
            d = dict(name='%s: %s' % (self.c.name, o.name), function=', '.join(self.c.functions), status=st, unbounded=self.c.unbounded, paths=o.paths,
                     time=round(sum(p.time for p in o.proofs), 3), backend='+'.join(sorted({p.backend for p in o.proofs})) or 'none', reason=o.info.get('reason', ''))
            if st == 'refuted':
                d.update(model=o.info.get('model'), witness=o.info.get('witness', []), decisive=bool(o.info.get('exact')) and not getattr(o, 'loop', False))
                if o.info.get('witness_error'):
                    d['reason'] = 'no replay input: ' + o.info['witness_error']
            elif fail and st == 'proved':
                d.update(status=fail[0], reason='not all paths were covered: ' + fail[1])
            out.append(d)
        if fail and not out:
            out.append(dict(name=self.c.name, function=', '.join(self.c.functions), status=fail[0], reason=fail[1], unbounded=self.c.unbounded, backend='none', time=0))
        if not fail and not self.reached:
            for d in out:
                d.update(status='unknown', decisive=False, reason='vacuous: no obligation was reached on a satisfiable path; ' + str(d.get('reason')))
            if not out:
                out.append(dict(name=self.c.name, function=', '.join(self.c.functions), status='unknown', reason='the contract generated no obligation', unbounded=self.c.unbounded, backend='none', time=0))
        return out

    def exception(self, C, e):
        name = 'no exception'
        o = self.obl.setdefault(name, Obligation(name))
        o.loop = False
        o.paths += 1
        p = sym.prove(list(C.path), S(z3.BoolVal(False)), self.c.timeout)
        o.proofs.append(p)
        if p.status == 'proved':
            return
        o.status = p.status
        own = traceback.extract_tb(e.__traceback__)[-1].filename.startswith(load.REPO)      # raised by the code itself, not by the model of a library
        o.info = dict(reason='%s: %s%s' % (type(e).__name__, str(e)[:200], where(e)), exact=own and not isinstance(e, (AttributeError, TypeError, NameError)) and p.exact and not C.inexact)
        if p.status == 'refuted':
            m = p.model
            if self.pref:
                q = sym.prove(list(C.path) + self.pref, S(z3.BoolVal(False)), 4000)
                if q.status == 'refuted':
                    m = q.model
            o.info['model'] = str(m)[:1500]
            if self.c.witness:
                try:
                    w = self.c.witness(self, m)
                    o.info['witness'] = w if isinstance(w, list) else [w] if w else []
                except Exception as ex:
                    o.info['witness_error'] = str(ex)


def foreign(e):
    """was the exception raised inside a library rather than by the code under contract or the engine's model?"""
    f = traceback.extract_tb(e.__traceback__)[-1].filename
    return 'site-packages' in f or '/lib/python3' in f


def where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(load.REPO)]
    s = ' [%s:%d]' % (os.path.relpath(fr[-1].filename, load.REPO), fr[-1].lineno) if fr else ''
    if os.environ.get('PYDV_DEBUG'):
        s += '\n' + ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    return s


def assume_all(*cs):
    for c in cs:
        ctx().assume(c)


_SORT = dict(i=sym.INT, r=sym.REAL, b=sym.BOOL)


class _Fn:
    """an uninterpreted function (ghost)"""
    def __init__(self, name, args, res):
        self.d = z3.Function('%s!%d' % (name, next(sym._fresh)), *[_SORT[k] for k in args], _SORT[res])
        self.args = args
        sym.KEEP.append(self.d)

    def __call__(self, *a):
        return S(self.d(*[sym.real(numterm(x)) if k == 'r' else numterm(x) if k == 'i' else boolterm(x) for k, x in zip(self.args, a)]))


def _fn(name, args, res):
    return _Fn(name, args, res)


ghost = _fn


def define(f, cond, val, other=None):
    """definitional axiom of a ghost function, instantiated at the terms that occur: f(x) = val(x) if cond(x) else other(x)"""
    def ax(t):
        a = [S(c) for c in t.children()]
        c = boolterm(cond(*a))
        out = [z3.Implies(c, boolterm(same(S(t), val(*a))))]
        if other is not None:
            out.append(z3.Implies(z3.Not(c), boolterm(same(S(t), other(*a)))))
        return out
    sym.AX[f.d.get_id()] = ax
    sym.GHOST.add(f.d.get_id())
    ctx().keep.append(f.d)
    ctx().notes.add('ghost')


def table(name, n, index=None, cols=None, kind='f'):
    """an arbitrary table: symbolic number of rows; symbolic number of columns (cols an int term) or given labels (list)"""
    import frame, pandas as pd
    index = index if index is not None else frame.time_index(name + '_time', n)
    if isinstance(cols, (list, pd.Index)):
        return frame.Frame([symbolic('%s_%s' % (name, c), (n,), kind) for c in cols], index, pd.Index(cols) if not isinstance(cols, pd.Index) else cols)
    c = frame.SymCols(cols)
    return frame.Frame(symbolic(name, (n, cols), kind), index, c)


def same_rows(part, whole, start, stop):
    """part is rows start..stop-1 of whole: values, labels and columns"""
    import frame
    n = lift(stop) - start
    w = whole.values.snapshot()
    i = sym.fresh(z3.IntSort(), 'e')
    lab = S(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < numterm(n)), boolterm(same(part.index.key(S(i)), whole.index.key(S(i) + start))))))
    return And(lift(part.index.n) == n, equal_arrays(part.values, Arr((norm(n), whole.shape[1]), lambda r, c: w(lift(r) + start, c), 'f')), lab, frame.same_cols(part.columns, whole.columns))


class Recorder:
    """stands for a library object: remembers the calls made to it"""
    def __init__(self, name='', ret=None):
        self.calls, self.ret, self.name = [], ret, name

    def __call__(self, *a, **k):
        self.calls.append((a, k))
        return self if self.ret is None else self.ret(*a, **k)
