"""jax proxy: jit is transparent, jax.numpy is the numpy proxy, anything else is out of reach."""
import types
from sym import Unsupported
import npx


def jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


class J(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        import load
        return load.Stub('jax.' + k)


JAX = J('jax')
JAX.jit = jit
JAX.numpy = npx.NP


def get(name, fromlist):
    m = JAX
    if fromlist:
        for p in name.split('.')[1:]:
            m = getattr(m, p)
    return m
