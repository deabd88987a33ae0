"""C19: invertible activations and layers, on the real layers with random weights (double precision, stated tolerance)."""
from common import *
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from functools import partial
from flax import linen as nn
import pyforecaster.forecasting_models.neural_models.layers as L
import pyforecaster.forecasting_models.neural_models.INN as I
from pyforecaster.forecasting_models.neural_models.neural_utils import identity

RULE = 'random points over the whole guarded range plus the break points of each activation and their neighbours; random weights; distinct = (activation, parameter, width, depth)'


def act_gen(rng, i, tier):
    return dict(act=['linloglin', 'invcondiff', 'softplus'][i % 3], k=[10, 1, 3.5, 50][i // 3 % 4], a=[1, 2., .5, 3][i // 3 % 4],
                c=[1, .5, 2.][i // 12 % 3], seed=rng.randrange(10 ** 6))


def act_run(p):
    g = np.random.default_rng(p['seed'])
    if p['act'] == 'linloglin':
        f, fi, br, lim = (lambda x: L.linloglin(x, k=p['k'])), (lambda y: L.linloglin_inverse(y, k=p['k'])), p['k'], 1e3
    elif p['act'] == 'invcondiff':
        f, fi, br, lim = (lambda x: L.invcondiff(x, a=p['a'], c=p['c'])), (lambda y: L.invcondiff_inverse(y, a=p['a'], c=p['c'])), p['a'], 1e4
    else:
        f, fi, br, lim = nn.softplus, L.inverse_softplus, 0., 30.
    lo = -12. if p['act'] == 'softplus' else -lim
    x = np.concatenate([g.uniform(lo, lim, 60), g.normal(size=60) * 2, br + np.array([-1e-3, 0, 1e-3]), -br + np.array([-1e-3, 0, 1e-3]), [0., 1e-3, -1e-3]])
    x = np.unique(np.round(x[x > lo], 9))
    y = np.asarray(f(jnp.array(x)))
    back = np.asarray(fi(jnp.array(y)))
    check(np.isfinite(y).all(), 'activation %s not finite' % p['act'])
    tol = 1e-5 * (1 + np.abs(x))
    bad = np.flatnonzero(~(np.abs(back - x) <= tol))
    check(len(bad) == 0, lambda: '%s: inverse(f(%r)) = %r' % (p['act'], x[bad[0]], back[bad[0]]))
    bad = np.flatnonzero(np.diff(y) <= 0)
    check(len(bad) == 0, lambda: '%s is not increasing between %r and %r (%r, %r)' % (p['act'], x[bad[0]], x[bad[0] + 1], y[bad[0]], y[bad[0] + 1]))
    y2 = np.sort(np.concatenate([g.uniform(y.min(), y.max(), 60), y]))
    x2 = np.asarray(fi(jnp.array(y2)))
    y3 = np.asarray(f(jnp.array(x2)))
    bad = np.flatnonzero(~(np.abs(y3 - y2) <= 1e-6 * (1 + np.abs(y2))))
    check(len(bad) == 0, lambda: '%s: f(inverse(%r)) = %r' % (p['act'], y2[bad[0]], y3[bad[0]]))
    return [p['act'], p['k'] if p['act'] == 'linloglin' else (p['a'], p['c'])]


ACT = dict(linloglin=L.linloglin, invcondiff=L.invcondiff, invcondiff_inverse=L.invcondiff_inverse, identity=identity, leaky_relu=nn.leaky_relu,
           leaky_partial=partial(nn.leaky_relu, negative_slope=.2), softplus=nn.softplus)


def f64(t):
    return jax.tree_util.tree_map(lambda a: jnp.asarray(a, dtype=jnp.float64), t)


def randomise(pars, g, scale):
    return jax.tree_util.tree_map(lambda a: jnp.asarray(g.normal(size=a.shape) * scale), pars)


def triangular(f, x, g):
    """outputs at earlier positions do not move when a later input does"""
    base = np.asarray(f(jnp.array(x)))
    for j in range(x.shape[1]):
        x2 = x.copy()
        x2[:, j] += g.normal(size=len(x)) + 1.5
        o = np.asarray(f(jnp.array(x2)))
        check(np.array_equal(o[:, :j], base[:, :j]), 'an input at position %d changes an output before it' % j)
        check((o[:, j] != base[:, j]).all(), 'output %d does not react to its own input' % j)


def layer_gen(rng, i, tier):
    return dict(act=list(ACT)[i % len(ACT)], pred=(i // len(ACT)) % 3 == 2, features=rng.choice([2, 3, 5, 9]), n=rng.choice([1, 2, 5, 7]),
                scale=rng.choice([.3, 1., 4.]), sf=rng.choice([.1, 1., .9]), seed=rng.randrange(10 ** 6))


def layer_run(p):
    g = np.random.default_rng(p['seed'])
    kw = dict(negative_slope=.2) if p['act'] == 'leaky_partial' else {}
    m = L.CausalInvertibleLayer(features=p['features'], scaling_factor=p['sf'], activation=ACT[p['act']], prediction_layer=p['pred'], **kw)
    # the overflow guard of the exponential activation limits its argument to 12
    pars = randomise(m.init(jax.random.key(0), jnp.zeros(p['features'])), g, min(p['scale'], .3) if p['act'] == 'invcondiff_inverse' else p['scale'])
    x = np.clip(g.normal(size=(p['n'], p['features'])) * 3, -8, 8)
    fw = lambda v: m.apply(pars, v, method='predict')
    bw = lambda v: m.apply(pars, v, method='invert')
    y = np.asarray(fw(jnp.array(x)))
    check(y.shape == x.shape, 'shape %s' % (y.shape,))
    check(close(bw(jnp.array(y)), x, rtol=1e-4, atol=1e-4), lambda: 'layer with %s: invert(forward(x)) differs from x by %g' % (p['act'], np.abs(np.asarray(bw(jnp.array(y))) - x).max()))
    z = y if p['act'] == 'softplus' else g.normal(size=x.shape) * 2
    check(close(fw(bw(jnp.array(z))), z, rtol=1e-4, atol=1e-4), lambda: 'layer with %s: forward(invert(y)) differs from y' % p['act'])
    single = np.stack([np.asarray(m.apply(pars, jnp.array(r))) for r in x])
    check(close(single, y, rtol=1e-7, atol=1e-9), 'the layer applied to one observation differs from its batch form')
    triangular(fw, x, g)
    triangular(bw, z, g)
    return [p['act'], p['pred'], p['features'], p['n']]


def module_gen(rng, i, tier):
    return dict(layers=[1, 2, 3, 5][i % 4], features=rng.choice([2, 4, 8]), n=rng.choice([1, 3, 8]), scale=rng.choice([.3, 1., 3.]),
                sf=rng.choice([.1, 1.]), e2e=bool((i // 4) % 2), exo=rng.choice([0, 1, 3]), seed=rng.randrange(10 ** 6))


def module_run(p):
    g = np.random.default_rng(p['seed'])
    f = p['features']
    if p['e2e']:
        m = I.EndToEndCausalInvertibleModule(num_embedding_layers=p['layers'], num_prediction_layers=2, features_embedding=f, features_prediction=3,
                                             n_exogenous_features=p['exo'], n_out=2, scaling_factor=p['sf'])
        pars = randomise(m.init(jax.random.key(1), jnp.zeros(f + p['exo'])), g, p['scale'])
        ex = g.normal(size=(p['n'], p['exo']))
        fw = lambda v: m.apply(pars, jnp.hstack([jnp.asarray(ex), v]), method='embed')
    else:
        m = I.CausalInvertibleModule(num_layers=p['layers'], features=f, scaling_factor=p['sf'])
        pars = randomise(m.init(jax.random.key(1), jnp.zeros(f)), g, p['scale'])
        fw = lambda v: m.apply(pars, v, method='predict')
    bw = lambda v: m.apply(pars, v, method='invert')
    x = g.normal(size=(p['n'], f)) * 3
    y = np.asarray(fw(jnp.array(x)))
    check(close(bw(jnp.array(y)), x, rtol=1e-4, atol=1e-4), 'module: invert(forward(x)) differs from x')
    # values of the image (the output range of a module is the image of its layers)
    z = np.asarray(fw(jnp.array(g.normal(size=x.shape) * 2)))
    check(close(fw(bw(jnp.array(z))), z, rtol=1e-4, atol=1e-4), 'module: forward(invert(y)) differs from y')
    if not p['e2e']:
        single = np.stack([np.asarray(m.apply(pars, jnp.array(r))) for r in x])
        check(close(single, y, rtol=1e-7, atol=1e-9), 'the module applied to one observation differs from its batch form')
    triangular(fw, x, g)
    return [p['layers'], f, p['e2e'], p['exo'] if p['e2e'] else None]


CASES = [Case('activation', act_gen, act_run, quick=36, thorough=400, rule=RULE),
         Case('layer', layer_gen, layer_run, quick=35, thorough=400, rule=RULE),
         Case('module', module_gen, module_run, quick=16, thorough=200, rule=RULE)]
