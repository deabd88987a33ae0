"""C20: re-projection of the weights, and convexity of layers and networks, for all weights, widths and inputs."""
from core import *
from core import _fn
import types
import frame, pandas as pd, numpy as np
import arr as A
ASSUMPTIONS = ['real arithmetic instead of floating point', 'a dense layer is (sum over its inputs of input times kernel) plus bias; sums are monotone and linear in their terms',
               'relu(x) is the larger of x and 0; softplus is convex and increasing; jit, vmap and module application are transparent and give each named layer its own weights',
               'no layer normalisation and no output squashing (z_min unset); weights named wz are non-negative (established by the re-projection of the same tree, also proved here)',
               'the number of layers is enumerated (1, 2, 4 per network; parameter trees of 1 to 4 layers); widths, weights and inputs are arbitrary']
N = 'pyforecaster.forecasting_models.neural_models.'
P = 'pyforecaster/forecasting_models/neural_models/'


def W_rep(h, m):
    out = []
    for i, c in enumerate(('PICNN', 'RecStablePICNN', 'PIQCNNSigmoid', 'StructuredPICNN', 'LatentStructuredPICNN')):
        for l, prob, aug in ((1, False, False), (2, True, False), (3, False, True), (4, False, False)):
            out.append(dict(case='reproject', params=dict(cls=c, n_out=2, hidden=3, layers=l, latent=1 if prob else 3, prob=prob, augment=aug, enc=2, dec=3, emb=2, n_ctrl=2, n_x=3, scale=1., seed=i, alias=False)))
    return out


def W_conv(h, m):
    out = []
    for i, c in enumerate(('PICNN', 'RecStablePICNN', 'LatentStructuredPICNN')):
        for s, (l, prob, aug) in enumerate(((1, False, False), (2, True, False), (3, False, True), (4, False, False), (2, False, True))):
            out.append(dict(case='convex', params=dict(cls=c, n_out=2, hidden=4, layers=l, latent=1 if prob else 3, prob=prob, augment=aug, enc=2, dec=3, emb=2, n_ctrl=2, n_x=3, scale=1., seed=10 * i + s, alias=False)))
    return out


# ---------------------------------------------------------------- re-projection
def layer_tree(names, last):
    t = {}
    for k in ('wzu', 'wyu', 'wuz') + (() if last else ('u_dense',)):
        t[k] = dict(kernel=None, bias=None)
    for k in ('wz', 'wy'):
        t[k] = dict(kernel=None)
    return t


def stack(n, first=0):
    return {'PICNNLayer_%d' % (first + i): layer_tree(None, i == n - 1) for i in range(n)}


def trees():
    for n in (1, 2, 4):
        yield '%d layers' % n, stack(n)
    yield 'with variance head', dict(stack(2), **stack(2, 2))
    yield 'with a feed-forward part', dict(stack(3), FeedForwardModule_0={'dense_0': dict(kernel=None, bias=None), 'dense_1': dict(kernel=None, bias=None), 'LayerNorm_0': dict(scale=None, bias=None)})
    yield 'encoder, decoder and predictor', {'PICNNLayer_encoder': stack(2), 'PICNNLayer_decoder_monotone': stack(3), 'PICNNLayer_picnn': stack(2)}


def fill(t, path=()):
    out = {}
    for k, v in t.items():
        if v is None:
            nm = '/'.join(path + (k,))
            out[k] = symbolic(nm, (sint('in ' + nm, 1), sint('out ' + nm, 1)) if k == 'kernel' else (sint('out ' + nm, 1),))
        else:
            out[k] = fill(v, path + (k,))
    return out


def leaves(t, path=()):
    for k, v in t.items():
        if hasattr(v, 'items'):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def must(path, rec, mono):
    if path[-1] != 'kernel':
        return False
    m = mono or any('monotone' in k for k in path)
    return path[-2] == 'wz' or (path[-2] == 'wy' and (m or rec))


for _nm, _t in trees():
    for _rec, _mono in ((False, False), (True, False), (False, True)):
        @contract('weights, %s%s' % (_nm, ', recurrent stability' if _rec else ', monotone' if _mono else ''), [P + 'neural_utils.py: reproject_weights', P + 'neural_utils.py: _reproject'], W_rep)
        def _(h, t=_t, rec=_rec, mono=_mono):
            f = h.module(N + 'neural_utils')
            tree = {'params': fill(t)}
            before = [(p, v.copy()) for p, v in leaves(tree)]
            kw = {}
            if rec or mono:
                kw = dict(rec_stable=rec, monotone=mono)
            out = f.reproject_weights(tree, **kw)
            after = list(leaves(out))
            h.ensure('same tree', lift(sorted(p for p, _ in after) == sorted(p for p, _ in before)))
            after = dict(after)
            for p, v in before:
                sn = v.snapshot()
                exp = A.Arr(v.shape, lambda *i: ite(lift(sn(*i)) > 0, sn(*i), 0.), 'f') if must(p, rec, mono) else v
                h.ensure('%s: %s' % ('/'.join(p[1:]), 'the non-negative part' if must(p, rec, mono) else 'as the optimiser left it'), equal_arrays(after[p], exp))


# ---------------------------------------------------------------- convexity
class Run:
    """evaluations of the same network at two points and at a point between them"""
    def __init__(self, h):
        self.h, self.at, self.par, self.io, self.uses, self.act = h, None, {}, {}, {}, {}
        self.lam = sreal('weight')
        h.assume(And(self.lam >= 0, self.lam <= 1))

    def start(self, at):
        self.at, self.uses = at, {}


def relu_at(x):
    return ite(lift(x) > 0, x, 0.)


def flax(h, r):
    class Dense:
        def __init__(self, features, use_bias=True, name=None, kernel_init=None, **k):
            if k:
                raise Unsupported('dense layer options %s' % sorted(k))
            self.features, self.bias, self.name = norm(lift(features)), use_bias, name

        def __call__(self, x):
            x = as_arr(x)
            k = r.uses.setdefault(self.name, 0)
            key = self.name if self.name is not None else ('Dense', k)
            if self.name is not None and k:
                raise ValueError('name in use')
            r.uses[self.name] = k + 1
            if key not in r.par:
                kk, bb = ghost('kernel_%s' % (key,), 'ii', 'r'), ghost('bias_%s' % (key,), 'i', 'r')
                if key == 'wz':
                    i, j = z3.Ints('i j')
                    sym.AX[kk.d.get_id()] = lambda t: [t >= 0]
                r.par[key] = (kk, bb, x.shape[0])
            kk, bb, n = r.par[key]
            h.ensure('width of the input of %s' % (key,), lift(x.shape[0]) == n)
            sn = x.snapshot()
            term = lambda o: lambda k: lift(sn(k)) * kk(k, o)
            r.io.setdefault(key, {})[r.at] = (n, term)
            return A.Arr((self.features,), lambda o: sym.reduce_term('sum', lift(n), term(o)) + (bb(o) if self.bias else 0.), 'f')

    def relu(v):
        a = as_arr(v)
        c = r.uses['relu'] = r.uses.get('relu', 0) + 1
        r.act.setdefault(c, {})[r.at] = a.snapshot(), a.shape
        return A.elementwise(relu_at, a)

    class NN(types.SimpleNamespace):
        def __getattr__(self, k):
            raise Unsupported('flax.linen.%s' % k)

    class LayerNorm:
        def __call__(self, v):
            raise Unsupported('layer normalisation')
    return NN(Dense=Dense, relu=relu, LayerNorm=LayerNorm, initializers=types.SimpleNamespace(lecun_normal=lambda: None), softplus=None, sigmoid=None)


def relu_law(h):
    """rectifying keeps convexity: shown for all numbers"""
    l, a, b, m = (sreal(k) for k in ('l', 'a', 'b', 'm'))
    pr = sym.prove([], Implies(And(l >= 0, l <= 1, m <= l * a + (lift(1) - l) * b), relu_at(m) <= l * relu_at(a) + (lift(1) - l) * relu_at(b)), 8000, 2)
    h.report('rectifying keeps convexity', pr.status, 'law')


def between(h, lam, fm, fa, fb, n, *args):
    """fm <= lam fa + (1-lam) fb for all positions"""
    h.assume(forall(lambda k: lift(fm(k)) <= lam * fa(k) + (lift(1) - lam) * fb(k), (0, n)))


def sums(h, r, o):
    """a sum is at most (equal to) the mean of two sums when its terms are"""
    lam, start = r.lam, list(ctx().path)
    for key, d in r.io.items():
        if set(d) != {'a', 'b', 'm'}:
            continue
        n = d['m'][0]
        tm, ta, tb = (d[p][1](o) for p in 'mab')
        k = S(sym.fresh(z3.IntSort(), 'k'))
        pre = list(ctx().path) + [boolterm(And(k >= 0, k < n))]
        mean = lambda: lam * sym.reduce_term('sum', lift(n), ta) + (lift(1) - lam) * sym.reduce_term('sum', lift(n), tb)
        vm, va, vb = lift(tm(k)), lift(ta(k)), lift(tb(k))
        if sym.prove(pre, vm == lam * va + (lift(1) - lam) * vb, 4000, want_model=False).status == 'proved':
            h.assume(sym.reduce_term('sum', lift(n), tm) == mean())
        elif sym.prove(pre, vm <= lam * va + (lift(1) - lam) * vb, 8000, want_model=False).status == 'proved':
            h.assume(sym.reduce_term('sum', lift(n), tm) <= mean())
    for d in r.act.values():
        if set(d) != {'a', 'b', 'm'} or any(len(q[1]) != 1 for q in d.values()):
            continue
        vm, va, vb = (lift(d[p][0](o)) for p in 'mab')
        if all(z3.eq(z3.simplify(vm.t), z3.simplify(q.t)) for q in (va, vb)):
            continue
        facts = [q for q in ctx().path[len(start):]]
        if sym.prove(facts + [boolterm(And(lam >= 0, lam <= 1))], vm <= lam * va + (lift(1) - lam) * vb, 8000, want_model=False).status == 'proved':
            h.assume(relu_at(vm) <= lam * relu_at(va) + (lift(1) - lam) * relu_at(vb))


def points(r, ny):
    ys = dict(a=symbolic('ya', (ny,)), b=symbolic('yb', (ny,)))
    sa, sb, lam = ys['a'].snapshot(), ys['b'].snapshot(), r.lam
    ys['m'] = A.Arr((ny,), lambda i: lam * sa(i) + (lift(1) - lam) * sb(i), 'f')
    return ys


def instance(cls, **k):
    """a module with its fields set, as its constructor does"""
    m = cls()
    for c in reversed(cls.__mro__):
        for n in getattr(c, '__annotations__', {}):
            if n in c.__dict__:
                setattr(m, n, c.__dict__[n])
    for n, v in k.items():
        setattr(m, n, v)
    return m


def layer(h, last, augment, rec=None):
    f = h.module(N + 'layers')
    r = Run(h)
    f.nn = flax(h, r)
    lam = r.lam
    if not last:
        relu_law(h)
    L = instance(f.PICNNLayer)
    nx, ny, nz, no, nu = sint('width of u', 1), sint('controls', 1), sint('latent', 1), sint('outputs', 1), sint('next u', 1)
    L.features_x, L.features_y, L.features_latent, L.features_out = nu, norm(ny * 2) if augment else ny, nz, (no if last else nz)
    L.prediction_layer, L.activation, L.augment_ctrl_inputs = last, f.nn.relu, augment
    if rec:
        L.rec_activation = f.nn.relu
    u = symbolic('u', (nx,))
    ys = points(r, ny)
    zs = {k: symbolic('z' + k, (nz,)) for k in 'abm'}
    z = {k: v.snapshot() for k, v in zs.items()}
    between(h, lam, z['m'], z['a'], z['b'], nz)
    out, un = {}, {}
    for at in 'abm':
        r.start(at)
        un[at], zo = L(ys[at].copy(), u.copy(), zs[at].copy())
        out[at] = as_arr(zo)
        h.ensure('width of the output', lift(out[at].shape[0]) == L.features_out)
    o = sint('output', 0)
    h.assume(o < L.features_out)
    sums(h, r, o)
    v = {k: lift(a.read(o)) for k, a in out.items()}
    h.ensure('convex in the controls and the latent state', v['m'] <= lam * v['a'] + (lift(1) - lam) * v['b'])
    if last:
        h.ensure('no further state', lift(all(q is None for q in un.values())))
    else:
        h.ensure('the exogenous state does not depend on the controls', And(equal_arrays(un['a'], un['b']), equal_arrays(un['a'], un['m'])))
        h.ensure('width of the exogenous state', lift(as_arr(un['a']).shape[0]) == nu)


for _last in (False, True):
    for _aug in (False, True):
        contract('%s layer%s' % ('last' if _last else 'inner', ', augmented controls' if _aug else ''), [P + 'layers.py: PICNNLayer.__call__'], W_conv)(lambda h, l=_last, a=_aug: layer(h, l, a))
contract('inner layer, rectified interactions', [P + 'layers.py: PICNNLayer.__call__'], W_conv)(lambda h: layer(h, False, False, True))


# ---------------------------------------------------------------- networks
class U:
    """an exogenous state: known by how it came about"""
    def __init__(self, how):
        self.how = how

    def copy(self):
        return self

    def __eq__(self, o):
        return isinstance(o, U) and self.how == o.how


def layers(h, r, relu, ny):
    """contract of the layer: next states convex in controls and state when the state is, given the same exogenous state"""
    class Layer:
        def __init__(self, features_x, features_y, features_out, features_latent, prediction_layer=False, activation=relu, rec_activation=None, augment_ctrl_inputs=False, layer_normalization=False, z_min=None, z_max=None, init_type=None, name=None):
            self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})

        def __call__(self, y, u, z):
            c = r.uses['layer'] = r.uses.get('layer', 0) + 1
            z = as_arr(z)
            h.ensure('layer %d: activation keeps convexity' % c, lift(self.activation is relu or self.prediction_layer))
            h.ensure('layer %d: no normalisation' % c, lift(not self.layer_normalization))
            h.ensure('layer %d: width of the state' % c, lift(z.shape[0]) == self.features_latent)
            h.ensure('layer %d: width of the controls' % c, lift(self.features_y) == (ny * 2 if self.augment_ctrl_inputs else ny))
            h.ensure('layer %d: the controls of the request' % c, equal_arrays(y, r.y))
            if not isinstance(u, U):
                raise Unsupported('exogenous state of another kind')
            d = r.io.setdefault(c, {})
            out = symbolic('z_%s_%d' % (r.at, c), (norm(lift(self.features_out)),))
            d[r.at] = z.snapshot(), out.snapshot(), z.shape[0], self.features_out, u, self.prediction_layer
            if set(d) == {'a', 'b', 'm'}:
                lam, s, o = r.lam, {k: v[0] for k, v in d.items()}, {k: v[1] for k, v in d.items()}
                h.ensure('layer %d: same exogenous state' % c, lift(d['a'][4] == u and d['b'][4] == u))
                h.ensure('layer %d: the state is convex in the controls' % c, forall(lambda i: lift(s['m'](i)) <= lam * s['a'](i) + (lift(1) - lam) * s['b'](i), (0, d['m'][2])))
                between(h, lam, o['m'], o['a'], o['b'], d['m'][3])
            return (None if self.prediction_layer else U((c, u.how))), out
    return Layer


def network(h, n, prob, structured, augment):
    f = h.module(N + 'ICNN')
    r = Run(h)
    g = flax(h, r)
    sp = ghost('softplus', 'r', 'r')
    g.softplus = lambda v: A.elementwise(lambda x: sp(lift(x)), as_arr(v))
    f.nn = g
    ny, no, nl = sint('controls', 1), sint('outputs', 1), sint('latent', 1)
    f.PICNNLayer = layers(h, r, g.relu, ny)
    m = instance(f.PICNN_module, num_layers=n, features_x=sint('hidden', 1), features_y=norm(ny * 2) if augment else ny, features_out=no, features_latent=nl, activation=g.relu,
                 augment_ctrl_inputs=augment, probabilistic=prob, structured=structured)
    if prob:
        h.assume(nl == 1)
        h.assume(lift(1) == (1 if structured else no))
    ys = points(r, ny)
    out = {}
    for at in 'abm':
        r.start(at)
        r.y = ys[at]
        out[at] = as_arr(m(U('x'), ys[at].copy()))
        h.ensure('the last layer, and no other, gives the forecast', lift([d[at][5] for d in r.io.values()] == ([False] * (n - 1) + [True]) * (2 if prob else 1)))
    if prob:
        o = sint('component', 0)
        w = lift(out['m'].shape[0])
        h.ensure('as many outputs at every point', And(lift(out['a'].shape[0]) == w, lift(out['b'].shape[0]) == w))
        h.assume(o < w)
        last = max(r.io)
        s = {k: r.io[last][k][1] for k in 'abm'}
        i = S(sym.fresh(z3.IntSort(), 'i'))
        # softplus is convex and increasing, at the variance states
        h.assume(forall(lambda i: Implies(lift(s['m'](i)) <= r.lam * s['a'](i) + (lift(1) - r.lam) * s['b'](i), sp(lift(s['m'](i))) <= r.lam * sp(lift(s['a'](i))) + (lift(1) - r.lam) * sp(lift(s['b'](i)))), (0, r.io[last]['m'][3])))
        v = {k: lift(a.read(o)) for k, a in out.items()}
        h.ensure('forecast and variance are convex in the controls', v['m'] <= r.lam * v['a'] + (lift(1) - r.lam) * v['b'])
        return
    h.ensure('one value per output', lift(out['m'].shape[0]) == no)
    h.ensure('the forecast is convex in the controls', forall(lambda i: lift(out['m'].read(i)) <= r.lam * out['a'].read(i) + (lift(1) - r.lam) * out['b'].read(i), (0, no)))


for _n in (1, 2, 4):
    for _a in (False, True):
        contract('network of %d layers%s' % (_n, ', augmented controls' if _a else ''), [P + 'ICNN.py: PICNN_module.__call__'], W_conv)(lambda h, n=_n, a=_a: network(h, n, False, False, a))
    contract('network of %d layers with a variance head' % _n, [P + 'ICNN.py: PICNN_module.__call__'], W_conv)(lambda h, n=_n: network(h, n, True, False, False))
