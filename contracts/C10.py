"""C10: the exponential-smoothing pass against the textbook additive recursion, for every series, horizon and pair of periods.

Ghost functions over time t (t < 0: the state before the pass): LEV(t), TR(t), SG1(t), SG2(t) with
  LEV(t) = alpha (y_t - SG1(t-p1) - SG2(t-p2)) + (1-alpha)(LEV(t-1) + TR(t-1))
  SGk(t) = clip(gamma_k (y_t - LEV(t) - SGm(t-pm)) + (1-gamma_k) SGk(t-pk)),  TR(t) = beta (LEV(t)-LEV(t-1)) + (1-beta) TR(t-1)
"""
from core import *
from core import _fn
HW = 'pyforecaster.forecasting_models.holtwinters'
ASSUMPTIONS = ['real arithmetic instead of floating point', 'numba.jit runs the Python source as written', 'the series has no missing value (precondition)',
               'numpy array operations as modelled in pydv/arr.py']


class Ghost:
    def __init__(self, h, cons):
        self.n, self.p1, self.p2, self.m = sint('n', 1), sint('p1', 1), sint('p2', 1), sint('m', 1)
        self.Y = symbolic('Y', (self.n,))
        self.al, self.be, self.g1, self.g2 = (sreal(k) for k in ('alpha', 'beta', 'g1', 'g2'))
        self.a0, self.b0 = sreal('a0'), sreal('b0')
        self.s10, self.s20 = symbolic('s1', (self.p1,)), symbolic('s2', (self.p2,))
        self.c = (sreal('c0'), sreal('c1')) if cons else None
        if cons:
            h.assume(self.c[0] <= self.c[1])
        self.LEV, self.TR, self.SG1, self.SG2 = (_fn(k, 'i', 'r') for k in ('LEV', 'TR', 'SG1', 'SG2'))
        L, T, A, B = self.LEV, self.TR, self.SG1, self.SG2
        p1, p2, y = self.p1, self.p2, lambda t: self.Y.read(t)
        t = lambda x: x
        define(L, lambda t: t >= 0, lambda t: self.al * (y(t) - A(t - p1) - B(t - p2)) + (1 - self.al) * (L(t - 1) + T(t - 1)), lambda t: self.a0)
        define(T, lambda t: t >= 0, lambda t: self.be * (L(t) - L(t - 1)) + (1 - self.be) * T(t - 1), lambda t: self.b0)
        define(A, lambda t: t >= 0, lambda t: self.clip(self.g1 * (y(t) - L(t) - B(t - p2)) + (1 - self.g1) * A(t - p1)), lambda t: self.s10.read(t + p1))
        define(B, lambda t: t >= 0, lambda t: self.clip(self.g2 * (y(t) - L(t) - A(t - p1)) + (1 - self.g2) * B(t - p2)), lambda t: self.s20.read(t + p2))

    def clip(self, v):
        return v if self.c is None else arr.sminimum(arr.smaximum(self.c[0], v), self.c[1])

    def season1(self, j):
        """terms of the phases of times j, j+1, ..., j+p1-1, as known before sample j"""
        return Arr((self.p1,), lambda k: self.SG1(lift(k) + j - self.p1), 'f')

    def season2(self, j):
        return Arr((self.p2,), lambda k: self.SG2(lift(k) + j - self.p2), 'f')

    def out(self, j, k):
        """forecast issued at sample j for k+1 steps ahead"""
        j, k = lift(j), lift(k)
        return self.LEV(j) + (k + 1) * self.TR(j) + self.SG1(j + 1 - self.p1 + k % self.p1) + self.SG2(j + 1 - self.p2 + k % self.p2)


def the_pass(h, cons, later=False):
    hw = h.module(HW)
    g = Ghost(h, cons)
    # the pass starts at sample k0, from the states the samples before it have left
    k0 = sint('start', 0) if later else lift(0)
    h.assume(k0 < g.n)
    N = norm(lift(g.n) - k0)
    Y = Arr((N,), lambda r: g.Y.read(lift(r) + k0), 'f') if later else g.Y

    def states(i):
        s1, s2 = g.season1(i + k0), g.season2(i + k0)
        return dict(am1=g.LEV(i + k0 - 1), bm1=g.TR(i + k0 - 1), s1mp=s1, s2mp=s2)

    def outer(L, i):
        i = lift(i)
        d = states(i)
        first = i.concrete() == 0
        if first:
            d.update(s1mp_shift=arr.full((g.p1,), 0.), s2mp_shift=arr.full((g.p2,), 0.))
        elif L.i is not None and i is L.i and bool(i == 0):
            d.update(s1mp_shift=arr.full((g.p1,), 0.), s2mp_shift=arr.full((g.p2,), 0.))
        elif L.i is not None and i is L.i and ctx().choose(2) == 0:
            d.update(s1mp_shift=d['s1mp'], s2mp_shift=d['s2mp'])         # the very same arrays
        else:
            d.update(s1mp_shift=g.season1(i + k0), s2mp_shift=g.season2(i + k0))
        d['y_tot'] = Arr((N, g.m), lambda r, k: ite(lift(r) < i, g.out(lift(r) + k0, k), Y.read(r)), 'f')
        return d

    def inner(L, i):
        j, y0 = L.all['j'], L.entry['y_tot'].snapshot()
        return dict(y_tot=Arr((N, g.m), lambda r, k: ite(And(lift(r) == j, lift(k) < i), g.out(lift(j) + k0, k), y0(r, k)), 'f'))
    h.loop(HW, ('run', 0), LoopSpec('state after each sample', outer, local=('a', 'b', 's1', 's2', 'i', 'h')))
    h.loop(HW, ('run', 1), LoopSpec('forecast of each horizon', inner, local=()))
    horizon = Arr((g.m,), lambda i: arr.cast(lift(i) + 1, 'f'), 'f')
    period = as_arr([arr.cast(g.p1, 'f'), arr.cast(g.p2, 'f')])
    constraints = as_arr([g.c[0], g.c[1]]) if cons else np.array([-np.inf, np.inf])
    y_tot = Arr((N, g.m), lambda r, k: Y.read(r), 'f')
    s1, s2 = (g.season1(k0), g.season2(k0)) if later else (g.s10.copy(), g.s20.copy())
    s10, s20 = s1.copy(), s2.copy()
    out = hw.run(horizon, period, g.al, g.be, as_arr([g.g1, g.g2]), s1, s2, *((g.LEV(k0 - 1), g.TR(k0 - 1)) if later else (g.a0, g.b0)), Y, y_tot, arr.full((g.m,), 0.), constraints)
    y, a, b, e1, e2 = out
    n = lift(g.n)
    h.ensure('forecast k ahead is level plus k trends plus the seasonal terms of that phase', equal_arrays(y, Arr((N, g.m), lambda r, k: g.out(lift(r) + k0, k), 'f')))
    h.ensure('final level', same(a, g.LEV(n - 1)))
    h.ensure('final trend', same(b, g.TR(n - 1)))
    h.ensure('final seasonal terms', And(equal_arrays(e1, g.season1(n)), equal_arrays(e2, g.season2(n))))
    h.ensure('the caller\'s seasonal arrays are unchanged', And(equal_arrays(s1, s10), equal_arrays(s2, s20)))


@contract('pass without constraints', ['pyforecaster/forecasting_models/holtwinters.py: run'])
def free(h):
    the_pass(h, False)


@contract('pass with constraints', ['pyforecaster/forecasting_models/holtwinters.py: run, constrainify'])
def constrained(h):
    the_pass(h, True)


@contract('pass continued from a later sample', ['pyforecaster/forecasting_models/holtwinters.py: run'])
def continued(h):
    the_pass(h, False, True)


@contract('constraints', ['pyforecaster/forecasting_models/holtwinters.py: constrainify'])
def constr(h):
    hw = h.module(HW)
    x, lo, hi = sreal('x'), sreal('lo'), sreal('hi')
    h.assume(lo <= hi)
    r = hw.constrainify(x, as_arr([lo, hi]))
    h.ensure('result within the constraints', And(r >= lo, r <= hi))
    h.ensure('values within the constraints are kept', Implies(And(x >= lo, x <= hi), same(r, x)))
