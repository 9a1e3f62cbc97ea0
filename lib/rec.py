"""Recording callbacks: the abstract alphabet (labels) that flows through the real code."""
import numpy as np
import jax
import jax.numpy as jnp


def is_tracer(x):
    return isinstance(x, jax.core.Tracer)


def call(pyfn, out, *args):
    """Runs pyfn on concrete numpy arguments.  Directly when the arguments are concrete (jit disabled), through a
    sequential host callback when the code under test has wrapped us in jit or vmap."""
    leaves = jax.tree_util.tree_leaves(args)
    if any(is_tracer(x) for x in leaves):
        args = tuple(jax.random.key_data(a) if _is_key(a) else a for a in args)
        return jax.pure_callback(lambda *a: pyfn(*jax.tree_util.tree_map(np.asarray, a)), out, *args,
                                 vectorized=False)
    r = pyfn(*jax.tree_util.tree_map(lambda a: np.asarray(jax.random.key_data(a)) if _is_key(a) else np.asarray(a), args))
    return jax.tree_util.tree_map(jnp.asarray, r)


def _is_key(a):
    try:
        return jnp.issubdtype(a.dtype, jax.dtypes.prng_key)
    except AttributeError:
        return False


def f32(shape):
    return jax.ShapeDtypeStruct(tuple(shape), jnp.float32)


def i32(shape):
    return jax.ShapeDtypeStruct(tuple(shape), jnp.int32)


def enc(label, shape):
    """A state of the given shape that carries an integer label: entry j is label + j/16."""
    m = int(np.prod(shape)) if len(shape) else 1
    assert m <= 16
    return (np.float32(label) + np.arange(m, dtype=np.float32) / 16).reshape(shape)


def encs(labels, shape):
    return np.stack([enc(x, shape) for x in labels]).astype(np.float32) if len(labels) else np.zeros((0, *shape), np.float32)


def dec(x):
    """The label of a state, or -1 if its entries do not belong together."""
    x = np.asarray(x, np.float64).ravel()
    m = x.size
    if m == 0 or not np.all(np.isfinite(x)):
        return -1
    lab = int(np.floor(x[0] + 1e-9))
    if np.max(np.abs(x - (lab + np.arange(m) / 16))) > 1e-6:
        return -1
    return lab


def decs(xs, shape=None):
    xs = np.asarray(xs)
    if xs.ndim == 0:
        return [-1]
    if shape is not None and tuple(xs.shape[1:]) != tuple(shape):
        return [-2] * max(1, xs.shape[0])
    return [dec(x) for x in xs]


class Index:
    """Times (or any scalars) identified by index."""

    def __init__(self, values):
        self.v = np.asarray(values, np.float64)

    def __call__(self, t):
        t = np.asarray(t, np.float64)
        if t.ndim != 0 and t.size != 1:
            return -2
        t = float(t.reshape(()))
        d = np.abs(self.v - t)
        j = int(np.argmin(d))
        return j if d[j] <= 1e-6 * max(1.0, abs(t)) else -1


def quant(x, scale, cap=1_900_000_000):
    """Integers round(x * scale); out of range and non-finite values become +-(cap + something)."""
    x = np.asarray(x, np.float64).ravel()
    out = []
    for z in x:
        if not np.isfinite(z):
            out.append(cap + 2 if z > 0 else (-cap - 2 if z < 0 else -cap - 3))
        else:
            out.append(int(np.clip(np.round(z * scale), -cap - 1, cap + 1)))
    return out


def q1(x, scale, cap=1_900_000_000):
    x = np.asarray(x)
    return quant(x, scale, cap)[0] if x.size == 1 else -cap - 4


class Raised(Exception):
    pass


def observe(fn):
    """Runs the code under test; an exception it raises becomes an event the specification does not allow."""
    try:
        return fn(), None
    except Exception as e:   # noqa: the code under test failed
        import traceback
        return None, dict(e="raised", clause="raised " + type(e).__name__ + ": " + str(e)[:200],
                          tb=traceback.format_exc()[-1500:])
