"""C19: invertible activations and layers, for all inputs, weights, numbers of features and observations."""
from core import *
from core import _fn
import types
import arr as A
import npx
ASSUMPTIONS = ['real arithmetic instead of floating point; exp and log are strictly increasing and mutually inverse (their values are otherwise arbitrary)',
               'jax.scipy.linalg.solve_triangular(A, b, lower=True) returns the one solution of (lower triangle of A) z = b, which exists when no diagonal entry is zero; jax.jit and vmap are transparent',
               'flax: parameters are stored as given; leaky_relu(x) is x above zero and negative_slope x below; softplus(x) is log(1 + exp(x)); the number of layers of a module is enumerated (1, 2, 4)',
               'exactness is claimed outside the guards: |x| >= 1e-12 for the logarithmic parts (within 1e-12 of the input inside), exponents within 12, softplus values between 1e-6 and 20']
F = 'pyforecaster.forecasting_models.neural_models.layers'
FI = 'pyforecaster.forecasting_models.neural_models.INN'
FF = 'pyforecaster/forecasting_models/neural_models/layers.py: '
FFI = 'pyforecaster/forecasting_models/neural_models/INN.py: '


def W_act(h, m):
    return [dict(case='activation', params=dict(act=a, k=k, a=aa, c=c, seed=s)) for s, (a, k, aa, c) in enumerate([('linloglin', 10, 1, 1), ('linloglin', 1, 1, 1), ('linloglin', 3.5, 1, 1), ('invcondiff', 1, 1, 1), ('invcondiff', 1, 2., .5), ('invcondiff', 1, .5, 2.), ('softplus', 1, 1, 1)])]


def W_layer(h, m):
    return [dict(case='layer', params=dict(act=a, pred=p, features=n, n=k, scale=1., sf=.9, seed=s)) for s, (a, p, n, k) in enumerate([('linloglin', False, 3, 5), ('linloglin', True, 5, 2), ('invcondiff', False, 3, 4), ('invcondiff_inverse', False, 3, 4), ('identity', False, 2, 1), ('leaky_relu', False, 3, 4), ('leaky_partial', False, 3, 4), ('softplus', False, 3, 4), ('linloglin', False, 2, 1)])]


def W_mod(h, m):
    return [dict(case='module', params=dict(layers=l, features=3, n=3, scale=1., sf=1., e2e=e, exo=x, seed=l)) for l in (1, 2, 3, 5) for e, x in ((False, 0), (True, 0), (True, 2))]


def points(h, name='x'):
    n = sint('points', 1)
    return n, symbolic(name, (n,))


def inverse_pair(h, f, g, dom, img, tol=None, regions=None, mono=True, parts=None):
    """g(f(x)) == x where dom(x); f(g(y)) == y where img(y); f and g strictly increasing there"""
    n, x = points(h)
    sx = x.snapshot()
    y = as_arr(f(x))
    sy, sb = y.snapshot(), as_arr(g(y)).snapshot()
    i, j = S(sym.fresh(z3.IntSort(), 'i')), S(sym.fresh(z3.IntSort(), 'j'))
    h.assume(And(i >= 0, i < n, j >= 0, j < n))
    h.ensure('one value per input', lift(y.shape[0]) == n)
    for nm, reg, _ in (parts or [('', lambda x: True, None)]):
        h.ensure('inverse after activation' + nm, Implies(And(dom(lift(sx(i))), reg(lift(sx(i)))), lift(sb(i)) == sx(i)))
    if tol is not None:
        h.ensure('inverse after activation, inside the guard', And(lift(sb(i)) - sx(i) <= tol, lift(sx(i)) - sb(i) <= tol), hyps=[boolterm(lift(sx(i)) < 1), boolterm(lift(sx(i)) > -1)])
    for nm, reg, img_ in (parts or [('', lambda x: True, lambda y: True)]):
        h.ensure('strictly increasing' + nm, Implies(And(dom(lift(sx(i))), dom(lift(sx(j))), reg(lift(sx(i))), reg(lift(sx(j))), lift(sx(i)) < sx(j)), lift(sy(i)) < sy(j)))
        if parts:
            # the pieces follow one another, so the map increases from piece to piece as well
            h.ensure('values of the piece' + nm, Implies(And(dom(lift(sx(i))), reg(lift(sx(i)))), img_(lift(sy(i)))))
    z = symbolic('y', (n,))
    sz = z.snapshot()
    w = as_arr(g(z))
    sw, sf_ = w.snapshot(), as_arr(f(w)).snapshot()
    for nm, reg in (regions or [('', lambda y: True)]):
        h.ensure('activation after inverse' + nm, Implies(And(img(lift(sz(i))), reg(lift(sz(i)))), lift(sf_(i)) == sz(i)))
    if mono:
        h.ensure('inverse strictly increasing', Implies(And(img(lift(sz(i))), img(lift(sz(j))), lift(sz(i)) < sz(j)), lift(sw(i)) < sw(j)))


EPS = 1e-12


class NPWith:
    def __init__(self, np_, **k):
        self.__dict__.update(k, _np=np_)

    def __getattr__(self, k):
        return getattr(self._np, k)


def exact(h):
    """the module with exact logarithms and quotients of constants"""
    f = h.module(F)
    for k in ('linloglin', 'linloglin_inverse', 'invcondiff', 'invcondiff_inverse'):
        g = getattr(f, k)
        if g.__defaults__:
            g.__defaults__ = tuple(lift(v) if isinstance(v, (int, float)) else v for v in g.__defaults__)
    f.jnp = NPWith(f.jnp, log=lambda v: A.elementwise(lambda x: sym.log(lift(x)), as_arr(v)) if not isinstance(v, (int, float, S)) else sym.log(lift(v)))
    return f


def linlog(h, k, any_k=False):
    f = exact(h)
    k = lift(k)
    top = sym.log(k + 1)
    regions = [(' (left line)', lambda y: y <= -top), (' (left curve)', lambda y: And(y > -top, y < 0)), (' (right curve)', lambda y: And(y >= 0, y < top)), (' (right line)', lambda y: y >= top)]
    far = lambda v: Or(v >= EPS, v <= -EPS)
    # values outside the image of the guard
    out = lambda y: Or(y >= sym.log(lift(1) + EPS), y <= -sym.log(lift(1) + EPS))
    xs = [lambda x: x <= -k, lambda x: And(x > -k, x < 0), lambda x: And(x >= 0, x < k), lambda x: x >= k]
    parts = [(nm, x, y) for (nm, y), x in zip(regions, xs)] if any_k else None
    inverse_pair(h, lambda x: f.linloglin(x, k=k), lambda y: f.linloglin_inverse(y, k=k), far, out, regions=regions if any_k else None, parts=parts)




contract('linloglin, k=10', [FF + 'linloglin', FF + 'linloglin_inverse'], W_act)(lambda h: linlog(h, 10))


def condiff(h, a, c, mono=True):
    f = exact(h)
    a, c = lift(a), lift(c)
    b = a * c
    lg = sym.log(lift(a))
    dom = lambda x: And(Implies(x > a, sym.log(x) <= 12), Implies(x < -a, sym.log(-x) <= 12))
    kk = lambda: b * (lift(1) - lg)
    img = lambda y: And((y - kk()) <= 12 * b, (-y - kk()) <= 12 * b)
    h.assume(And(lg <= 12, lg >= -12))
    inverse_pair(h, lambda x: f.invcondiff(x, a=a, c=c), lambda y: f.invcondiff_inverse(y, a=a, c=c), dom, img, mono=mono)


for _a, _c in ((1, 1), (2., .5), (.5, 2.)):
    contract('invcondiff, a=%s, c=%s' % (_a, _c), [FF + 'invcondiff', FF + 'invcondiff_inverse', FF + 'safe_exp'], W_act)(lambda h, a=_a, c=_c: condiff(h, a, c))


def softplus(x):
    return npx.NP.log(npx.NP.exp(x) + 1)


@contract('softplus', [FF + 'inverse_softplus'], W_act)
def soft(h):
    f = exact(h)
    dom = lambda x: And(sym.log(sym.exp(x) + 1) <= 20)
    inverse_pair(h, softplus, f.inverse_softplus, dom, lambda y: And(y > 0, y <= 20))


@contract('linloglin, any k', [FF + 'linloglin', FF + 'linloglin_inverse'], W_act)
def linlog_any(h):
    k = sreal('k')
    h.assume(k > 0)
    linlog(h, k, True)


@contract('invcondiff, any a and c', [FF + 'invcondiff', FF + 'invcondiff_inverse', FF + 'safe_exp'], W_act)
def condiff_any(h):
    a, c = sreal('a'), sreal('c')
    h.assume(And(a >= 2. ** -30, c > 0))
    # the inverse increases because the map does and undoes it (both above)
    condiff(h, a, c, mono=False)


# ---------------------------------------------------------------- layers
class Layer:
    """the module's own class without flax's bookkeeping"""
    def __init__(self, h, pred=False):
        f = h.module(F)
        n = sint('features', 1)
        L = f.CausalInvertibleLayer()
        low = ghost('K', 'ii', 'r')
        L.features, L.prediction_layer, L.layer_normalization = n, pred, False
        # strictly lower triangular (contract of setup)
        L.kernel = Arr((n, n), lambda i, j: ite(lift(j) < i, low(i, j), 0.), 'f')
        L.bias = symbolic('bias', (n,))
        L.scaling_factor = sreal('scaling')
        h.assume(L.scaling_factor > 0)
        self.L, self.n, self.h, self.expected = L, n, h, None
        f.jax = types.SimpleNamespace(scipy=types.SimpleNamespace(linalg=types.SimpleNamespace(solve_triangular=self.solve)))

    def solve(self, a, b, lower=False, trans=0, unit_diagonal=False, **k):
        """(lower triangle of a) z = b"""
        if trans or k or unit_diagonal:
            raise Unsupported('options of solve_triangular')
        h, n = self.h, self.n
        a, b = as_arr(a), as_arr(b)
        sa, sb = a.snapshot(), b.snapshot()
        tri = (lambda i, j: ite(lift(j) <= i, sa(i, j), 0.)) if lower else (lambda i, j: ite(lift(j) >= i, sa(i, j), 0.))
        h.ensure('no zero on the diagonal', forall(lambda i: Not(lift(sa(i, i)) == 0), (0, n)))
        T = Arr((n, n), tri, 'f')
        if b.ndim == 1:
            raise Unsupported('one right hand side')
        if self.expected is not None:
            # the solution is unique: what solves the system is what is returned
            w = self.expected.T
            h.ensure('the inputs solve the system that is solved', equal_arrays(T @ w, b))
            return w
        z = symbolic('solution', b.shape)
        if sym.prove(list(ctx().path), equal_arrays(T, a), timeout=3000, want_model=False).status == 'proved':
            T = a
        lhs = (T @ z).snapshot()
        self.solution = lambda i, j: lift(lhs(i, j)) == sb(i, j)
        return z


def abstract(L):
    """a pair of mutually inverse activations (contracts of the activations)"""
    act, inv = _fn('ACT', 'r', 'r'), _fn('ACTINV', 'r', 'r')
    sym.AX[act.d.get_id()] = lambda t: [inv.d(t) == t.arg(0)]
    sym.AX[inv.d.get_id()] = lambda t: [act.d(t) == t.arg(0)]
    L.activation = lambda a: A.elementwise(lambda v: act(v), as_arr(a), kind='f')
    L.invert_activation = lambda a: A.elementwise(lambda v: inv(v), as_arr(a), kind='f')
    ctx().keep += [act.d, inv.d]


LAYER = [FF + 'CausalInvertibleLayer.%s' % k for k in ('__call__', 'predict', 'invert')]


def layer(h, pred, what):
    y = Layer(h, pred=pred)
    L, n = y.L, y.n
    abstract(L)
    m = sint('observations', 1)
    x = symbolic('x', (m, n))
    if what == 'backward after forward':
        x0 = x.copy()
        v = as_arr(L.predict(x))
        h.ensure('one output per input', And(lift(v.shape[0]) == m, lift(v.shape[1]) == n))
        y.expected = x0
        h.ensure('the inputs come back', equal_arrays(L.invert(v), x0))
    elif what == 'forward after backward':
        x0 = x.copy()
        sx = x0.snapshot()
        w = L.invert(x)
        h.ensure('one input per output', And(lift(w.shape[0]) == m, lift(w.shape[1]) == n))
        v = as_arr(L.predict(w))
        h.ensure('one output per input', And(lift(v.shape[0]) == m, lift(v.shape[1]) == n))
        r, i = S(sym.fresh(z3.IntSort(), 'r')), S(sym.fresh(z3.IntSort(), 'i'))
        h.assume(And(r >= 0, r < m, i >= 0, i < n))
        h.assume(y.solution(i, r))
        h.ensure('the outputs come back', lift(v.read(r, i)) == sx(r, i))
    elif what == 'one observation':
        v = as_arr(L.predict(x))
        r = sint('row', 0)
        h.assume(r < m)
        h.ensure('same as the row of the batch', equal_arrays(L(x[r]), v[r]))
    elif what == 'causal':
        x2 = symbolic('x2', (m, n))
        t = sint('position', 0)
        h.assume(t < n)
        sa, sb = x.snapshot(), x2.snapshot()
        h.assume(forall(lambda r, i: Implies(i <= t, lift(sa(r, i)) == sb(r, i)), (0, m), (0, n)))
        va, vb = as_arr(L.predict(x)).snapshot(), as_arr(L.predict(x2)).snapshot()
        r = S(sym.fresh(z3.IntSort(), 'r'))
        h.assume(And(r >= 0, r < m))
        h.ensure('outputs up to a position are the same when the inputs up to it are', lift(va(r, t)) == vb(r, t))


for _p in (False, True):
    for _w in ('backward after forward', 'forward after backward', 'one observation', 'causal'):
        contract('%s layer, %s' % ('last' if _p else 'inner', _w), LAYER, W_layer)(lambda h, p=_p, w=_w: layer(h, p, w))


def dispatch(h, name):
    f = exact(h)
    L = f.CausalInvertibleLayer()
    slope = sreal('slope')
    h.assume(slope > 0)
    L.negative_slope = slope
    n, x = points(h)
    sx = x.snapshot()
    dom = lambda v: True
    if name == 'leaky_relu':
        def leaky_relu(v):
            return f.jnp.where(v >= 0, v, v * slope)
        act = leaky_relu
    elif name == 'softplus':
        act, dom = globals()['softplus'], lambda v: And(sym.log(sym.exp(v) + 1) <= 20, sym.log(sym.exp(v) + 1) >= 1e-6)
    elif name == 'identity':
        def identity(v):
            return v
        act = identity
    else:
        act = getattr(f, name)
        dom = dict(linloglin=lambda v: Or(v >= EPS, v <= -EPS), invcondiff=lambda v: And(Implies(v > 1, sym.log(v) <= 12), Implies(v < -1, sym.log(-v) <= 12)), invcondiff_inverse=lambda v: And(v <= 12, v >= -12))[name]
    L.activation = act
    b = as_arr(L.invert_activation(act(x))).snapshot()
    h.ensure('the inverse of this activation', forall(lambda i: Implies(dom(lift(sx(i))), lift(b(i)) == sx(i)), (0, n)))
    import functools
    if name != 'identity':
        L.activation = functools.partial(act)
        b2 = as_arr(L.invert_activation(act(x))).snapshot()
        h.ensure('also when given with parameters', forall(lambda i: lift(b2(i)) == b(i), (0, n)))


for _n in ('linloglin', 'invcondiff', 'invcondiff_inverse', 'identity', 'leaky_relu', 'softplus'):
    contract('inverse used for %s' % _n, [FF + 'CausalInvertibleLayer.invert_activation'], W_layer)(lambda h, n=_n: dispatch(h, n))


class Tagged:
    """a table known by the layers it went through"""
    def __init__(self, base, maps):
        self.base, self.maps = base, maps

    def same(self, o):
        return isinstance(o, Tagged) and self.base == o.base and self.maps == o.maps

    def copy(self):
        return self


class Stand:
    """a layer: two maps of tables that undo each other (contract of the layers)"""
    def __init__(self, l):
        self.l = l

    def _do(self, x, k, undo):
        return Tagged(x.base, x.maps[:-1]) if x.maps and x.maps[-1] == (undo, self.l) else Tagged(x.base, x.maps + ((k, self.l),))

    def __call__(self, x):
        return self._do(x, 'f', 'b')
    predict = __call__

    def invert(self, x):
        return self._do(x, 'b', 'f')


def modules(h, layers, e2e):
    f = h.module(FI)
    n, m = sint('features', 1), sint('observations', 1)
    mod = f.CausalInvertibleModule()
    mod.num_layers = layers
    mod.layers = [Stand(l) for l in range(layers)]
    x = Tagged('x', ())
    through = tuple(('f', l) for l in range(layers))
    if e2e:
        e = f.EndToEndCausalInvertibleModule()
        e.embedder = mod
        k = sint('exogenous', 0)
        e.n_exogenous_features = k
        a = symbolic('inputs', (m, norm(n + k)))
        a0 = a.copy()
        seen = []
        orig = mod.predict

        def predict(v):
            seen.append(v)
            return orig(x)
        mod.predict = predict
        out = e.embed(a)
        h.ensure('embeds the endogenous inputs', len(seen) == 1 and equal_arrays(seen[0], a0[:, k:]))
        h.ensure('through every layer once', out.maps == through)
        h.ensure('back to the endogenous inputs', e.invert(out).same(x))
        return
    h.ensure('batch form: every layer, in order', mod.predict(x).maps == through)
    h.ensure('one observation: every layer, in order', mod(x).maps == through)
    h.ensure('backward after forward', mod.invert(mod.predict(x)).same(x))
    h.ensure('forward after backward', mod.predict(mod.invert(x)).same(x))


for _l in (1, 2, 4):
    contract('module of %d layers' % _l, [FFI + 'CausalInvertibleModule.%s' % k for k in ('__call__', 'predict', 'invert')], W_mod, unbounded=False)(lambda h, l=_l: modules(h, l, False))
    contract('embedding of %d layers' % _l, [FFI + 'EndToEndCausalInvertibleModule.%s' % k for k in ('embed', 'invert')], W_mod, unbounded=False)(lambda h, l=_l: modules(h, l, True))


class Updatable:
    """jax's functional update of an array"""
    def __init__(self, a):
        self.a = a

    @property
    def at(self):
        return self

    def __getitem__(self, key):
        return types.SimpleNamespace(set=lambda v: self._set(key, v))

    def _set(self, key, v):
        r = self.a.copy()
        if isinstance(key, tuple) and key and all(getattr(k, 'ndim', 0) == 1 and not isinstance(k, Arr) for k in key):
            sn = as_arr(v).snapshot()
            for q, at in enumerate(zip(*key)):
                r[tuple(int(i) for i in at)] = sn(q)
        else:
            r[key] = v
        return r


def tri(h, n):
    f = h.module(F)
    import numpy as np_
    f.jnp = NPWith(f.jnp, zeros=lambda s, *a, **k: Updatable(A.full(tuple(s), 0.)), tril_indices=lambda L, k=0, *a: np_.tril_indices(L, k))
    L = f.CausalInvertibleLayer()
    L.features, L.param_dtype, L.kernel_init, L.bias_init = n, None, None, None
    got = {}

    def param(name, init, shape, dtype=None):
        got[name] = symbolic(name, tuple(norm(v) for v in shape))
        return got[name]
    L.param = param
    L.setup()
    k = as_arr(L.kernel).snapshot()
    h.ensure('square', tuple(as_arr(L.kernel).shape) == (n, n))
    for i in range(n):
        for j in range(n):
            if j >= i:
                h.ensure('no weight of a later or the same position', lift(k(i, j)) == 0)
    v = got['kernel'].snapshot()
    low = [(i, j) for i in range(n) for j in range(i)]
    h.ensure('every parameter is a weight', And(*[Or(*[lift(k(i, j)) == v(q, 0) for i, j in low]) for q in range(len(low))]) if low else True)
    h.ensure('one shift per position', tuple(as_arr(L.bias).shape) == (n,))


for _n in (2, 3, 5):
    contract('weights of %d positions' % _n, [FF + 'CausalInvertibleLayer.setup', FF + 'vector_to_lower_triangular'], W_layer, unbounded=False)(lambda h, n=_n: tri(h, n))
