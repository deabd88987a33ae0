"""C20: re-projection frame and convexity in the control inputs, on the real parameter trees and networks."""
from common import *
import copy
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
from pyforecaster.forecasting_models.neural_models import ICNN as N
from pyforecaster.forecasting_models.neural_models.neural_utils import reproject_weights

RULE = 'random weights (all signs, several scales) for every convex architecture and width/depth; distinct = (class, depth, widths, options)'


def leaves(t, path=()):
    if hasattr(t, 'items'):
        for k, v in t.items():
            yield from leaves(v, path + (k,))
    else:
        yield path, np.asarray(t)


def randomise(t, g, scale):
    return {k: randomise(v, g, scale) for k, v in t.items()} if hasattr(t, 'items') else jnp.asarray(g.normal(size=t.shape) * scale)


CLASSES = dict(PICNN=N.PICNN, RecStablePICNN=N.RecStablePICNN, PIQCNNSigmoid=N.PIQCNNSigmoid, StructuredPICNN=N.StructuredPICNN, LatentStructuredPICNN=N.LatentStructuredPICNN)


def build(p):
    opt = ['c%d' % i for i in range(p['n_ctrl'])]
    kw = dict(n_out=p['n_out'], n_hidden_x=p['hidden'], n_layers=p['layers'], optimization_vars=opt, n_latent=p['latent'], q_vect=np.linspace(.1, .9, 3),
              probabilistic=p['prob'], val_ratio=.3, nodes_at_step=np.ones(p['n_out'], int))
    if p['cls'] in ('PICNN', 'PIQCNNSigmoid', 'LatentStructuredPICNN', 'StructuredPICNN'):
        kw['augment_ctrl_inputs'] = p['augment']
    if p['cls'] == 'StructuredPICNN':
        kw['objective_fun'] = lambda a, b: a.sum() + b.sum()
    if p['cls'] == 'LatentStructuredPICNN':
        kw.update(n_encoder_layers=p['enc'], n_decoder_layers=p['dec'], n_embeddings=p['emb'], probabilistic=False)
    return CLASSES[p['cls']](**kw), opt


def params_of(m, p, g, scale):
    return randomise(m.init_arch(m.model, p['n_x'], p['n_ctrl']), g, scale)


def reproj_gen(rng, i, tier):
    p = _gen(rng, i)
    if p['prob']:
        p['latent'] = 1         # the variance head only supports a scalar latent state
    elif p['cls'] == 'LatentStructuredPICNN' and rng.random() < .3:
        p['latent'] = None
    return p


def _gen(rng, i):
    return dict(cls=list(CLASSES)[i % 5], n_out=rng.choice([1, 2, 4]), hidden=rng.choice([2, 5]), layers=rng.choice([1, 2, 3, 4]), latent=rng.choice([1, 3]), prob=rng.random() < .3,
                augment=rng.random() < .4, enc=rng.choice([1, 2, 3]), dec=rng.choice([1, 2, 3]), emb=rng.choice([1, 2, 4]), n_ctrl=rng.choice([1, 2, 3]), n_x=rng.choice([1, 4]),
                scale=rng.choice([.1, 1., 100.]), seed=rng.randrange(10 ** 6), alias=rng.random() < .5)


def must_project(path, m):
    """weights convexity (or monotonicity) needs non-negative, from the architecture: recurrent weights always, control
    weights where the architecture is declared monotone in its control inputs"""
    if path[-1] != 'kernel':
        return False
    mono = m.monotone or any('monotone' in k for k in path)
    return path[-2] == 'wz' or (path[-2] == 'wy' and (mono or m.rec_stable))


def reproj_run(p):
    g = np.random.default_rng(p['seed'])
    m, opt = build(p)
    pars = params_of(m, p, g, p['scale'])
    before = {k: v.copy() for k, v in leaves(pars)}
    out = reproject_weights(pars, rec_stable=m.rec_stable, monotone=m.monotone)
    after = dict(leaves(out))
    check(set(after) == set(before), 'the parameter tree changed its structure')
    n = 0
    for k, v in before.items():
        exp = np.maximum(v, 0) if must_project(k, m) else v
        n += must_project(k, m)
        check(np.array_equal(after[k], exp), lambda: '%s of %s: %s' % ('/'.join(k), p['cls'], 'still negative after the re-projection' if must_project(k, m) and (after[k] < 0).any() else 'is not what the optimiser produced'))
    check(n > 0, 'no recurrent weights found')
    return [p['cls'], p['layers'], p['prob'], p['augment']]


def convex_gen(rng, i, tier):
    p = reproj_gen(rng, i, tier)
    p['cls'] = ['PICNN', 'RecStablePICNN', 'PICNN', 'LatentStructuredPICNN'][i % 4]
    p['latent'] = p['latent'] or 1
    p['scale'] = rng.choice([.3, 1., 2.])
    return p


def convex_run(p):
    g = np.random.default_rng(p['seed'])
    m, opt = build(p)
    pars = reproject_weights(params_of(m, p, g, p['scale']), rec_stable=m.rec_stable, monotone=m.monotone)
    if p['cls'] == 'LatentStructuredPICNN':
        f = jax.vmap(lambda x, y: N.latent_pred(pars, m.model, x, y))
        ny = p['emb']
    else:
        f = jax.vmap(lambda x, y: m.model.apply(pars, x, y))
        ny = p['n_ctrl']
    n = 60
    x = np.repeat(g.normal(size=(6, p['n_x'])) * 2, n // 6, axis=0)
    a, b = g.normal(size=(n, ny)) * 3, g.normal(size=(n, ny)) * 3
    l = g.uniform(size=(n, 1))
    fa, fb, fm = [np.asarray(f(jnp.array(x), jnp.array(v))) for v in (a, b, l * a + (1 - l) * b)]
    excess = fm - (l * fa + (1 - l) * fb)
    tol = 1e-9 * (1 + np.abs(fa) + np.abs(fb))
    check((excess <= tol).all(), lambda: 'output %s of %s is not convex in the control inputs: excess %g' % (np.argwhere(excess > tol)[0], p['cls'], excess.max()))
    return [p['cls'], p['layers'], p['prob'], p['augment'], p['latent'], p['n_out']]


def mono_gen(rng, i, tier):
    p = reproj_gen(rng, i, tier)
    p['cls'] = 'PIQCNNSigmoid'
    p['latent'] = p['latent'] or 1
    p['augment'] = False
    return p


def mono_run(p):
    g = np.random.default_rng(p['seed'])
    m, opt = build(p)
    pars = reproject_weights(params_of(m, p, g, min(p['scale'], 1.)), rec_stable=m.rec_stable, monotone=m.monotone)
    f = jax.vmap(lambda x, y: m.model.apply(pars, x, y))
    x, a = g.normal(size=(40, p['n_x'])), g.normal(size=(40, p['n_ctrl']))
    b = a + g.uniform(0, 2, size=a.shape)
    fa, fb = np.asarray(f(jnp.array(x), jnp.array(a))), np.asarray(f(jnp.array(x), jnp.array(b)))
    check((fb >= fa - 1e-9).all(), 'the monotone architecture decreases in a control input')
    return [p['layers'], p['prob']]


def train_gen(rng, i, tier):
    p = reproj_gen(rng, i, tier)
    p.update(cls=['PICNN', 'RecStablePICNN', 'PIQCNNSigmoid', 'LatentStructuredPICNN'][i % 4], prob=False, n_out=2, latent=p['latent'] or 1, layers=2, hidden=3, epochs=rng.choice([1, 2]), stats=rng.choice([3, 50]))
    return p


def train_run(p):
    """a real training run: the weights in use after it, and what it predicts for control inputs"""
    g = np.random.default_rng(p['seed'])
    np.random.seed(p['seed'])
    m, opt = build(p)
    n = 120
    m.set_attr(dict(batch_size=20, learning_rate=.05))
    m.set_arch()
    x = pd.DataFrame(g.normal(size=(n, p['n_x'] + p['n_ctrl'])), columns=['x%d' % i for i in range(p['n_x'])] + opt, index=whole_index(n, 60))
    y = pd.DataFrame(g.normal(size=(n, 2)), columns=['a', 'b'], index=x.index)
    y['a'] -= 2 * (x[opt] ** 2).sum(axis=1)         # pulls the recurrent weights towards negative values
    quiet(m.fit, x, y, n_epochs=p['epochs'], stats_step=p['stats'])
    for k, v in leaves(m.pars):
        if must_project(k, m):      # (a diverged training leaves NaN weights: not a sign violation)
            check(not (v < 0).any(), 'after training %s of %s has negative entries (%g)' % ('/'.join(k), p['cls'], v.min()))
    if p['cls'] in ('PICNN', 'RecStablePICNN'):
        k = 30
        xa = x.iloc[:k].copy()
        a, b, l = g.normal(size=(k, len(opt))) * 3, g.normal(size=(k, len(opt))) * 3, g.uniform(size=(k, 1))
        r = []
        for v in (a, b, l * a + (1 - l) * b):
            z = xa.copy()
            z[opt] = v
            r.append(np.asarray(quiet(m.predict, z)))
        if not all(np.isfinite(k).all() for k in r):
            return [p['cls'], 'diverged']
        check((r[2] <= l * r[0] + (1 - l) * r[1] + 1e-5 * (1 + np.abs(r[0]) + np.abs(r[1]))).all(), 'the trained forecast is not convex in the control inputs')
    return [p['cls'], p['epochs'], p['stats']]


CASES = [Case('reproject', reproj_gen, reproj_run, quick=30, thorough=300, rule=RULE),
         Case('convex', convex_gen, convex_run, quick=20, thorough=200, rule=RULE),
         Case('monotone', mono_gen, mono_run, quick=5, thorough=40, rule=RULE),
         Case('training', train_gen, train_run, quick=4, thorough=24, timeout=240, rule=RULE)]
