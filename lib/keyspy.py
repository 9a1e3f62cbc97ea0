"""Watches every use of a random key made through jax.random, in the alphabet of Keys.tla.  Import before fbs."""
import functools
import zlib
import numpy as np
import jax
from jax._src import core as jcore
from jax._src.interpreters import batching

SPLITS = ("split", "fold_in", "clone")
SKIP = {"PRNGKey", "key", "key_data", "wrap_key_data", "key_impl", "default_prng_impl", "PRNGKeyArray", "KeyArray"} | set(SPLITS)
cur = None
_depth = 0


def values(key):
    """The concrete keys behind a key (one per element of the enclosing vectorised maps) as bytes, and whether mapped."""
    mapped = False
    while isinstance(key, jcore.Tracer):
        if isinstance(key, batching.BatchTracer):
            if key.batch_dim is not batching.not_mapped:
                mapped = True
                key = _front(key.val, key.batch_dim)
            else:
                key = key.val
        elif hasattr(key, "primal"):
            key = key.primal
        else:
            raise TypeError("opaque tracer")
    try:
        if jax.dtypes.issubdtype(key.dtype, jax.dtypes.prng_key):
            key = jax.random.key_data(key)
    except AttributeError:
        pass
    a = np.asarray(key)
    return [r.tobytes() for r in a.reshape(-1, a.shape[-1])], mapped


def _front(v, d):
    if isinstance(v, jcore.Tracer):
        return v if d == 0 else jax.numpy.moveaxis(v, d, 0)
    return np.moveaxis(np.asarray(jax.random.key_data(v) if jax.dtypes.issubdtype(v.dtype, jax.dtypes.prng_key) else v), d, 0)


def in_vmap():
    return any(issubclass(m.trace_type, batching.BatchTrace) for m in jcore.thread_local_state.trace_state.trace_stack.stack)


class Recorder:
    def __init__(self, root):
        self.ids, self.ev = {}, []
        self.root = self.id(values(root)[0][0])
        self.hash = 0

    def id(self, b):
        return self.ids.setdefault(b, len(self.ids) + 1)

    def use(self, kind, key, **kw):
        ks, mapped = values(key)
        self.ev.append(dict(e=kind, ks=[self.id(k) for k in ks], shared=bool(in_vmap() and not mapped), **kw))

    def split(self, name, key, num, out):
        ks, mapped = values(key)
        os, _ = values(out)
        m = len(os) // len(ks)
        self.ev.append(dict(e="split", ks=[self.id(k) for k in ks], num=num,
                            out=[[self.id(o) for o in os[i * m:(i + 1) * m]] for i in range(len(ks))]))


def user(key):
    """To be called by user callbacks with the key they receive."""
    if cur is not None:
        cur.use("user", key, f="user")


def _wrap(name, f):
    @functools.wraps(f)
    def g(*a, **k):
        global _depth
        if cur is None or _depth:
            return f(*a, **k)
        key = a[0] if a else k.get("key")
        if key is None:
            return f(*a, **k)
        _depth += 1
        try:
            if name in SPLITS:
                out = f(*a, **k)
                if name == "split":
                    num = a[1] if len(a) > 1 else k.get("num", 2)
                    num = int(np.prod(num))
                else:       # requests are told apart by a negative number derived from the data
                    d = a[1] if len(a) > 1 else k.get("data", 0)
                    num = -1 - int(zlib.crc32(np.asarray(d).tobytes()) % 10 ** 6) if not isinstance(d, jcore.Tracer) else -2000000 - len(cur.ev)
                cur.split(name, key, num, out)
                return out
            cur.use("draw", key, f=name)
            return f(*a, **k)
        finally:
            _depth -= 1
    return g


def install():
    for name in dir(jax.random):
        f = getattr(jax.random, name)
        if name.startswith("_") or name in SKIP - set(SPLITS) or not callable(f) or isinstance(f, type) or hasattr(f, "_keyspy"):
            continue
        g = _wrap(name, f)
        g._keyspy = True
        setattr(jax.random, name, g)


class spy:
    def __init__(self, root):
        self.root = root

    def __enter__(self):
        global cur
        cur = Recorder(self.root)
        return cur

    def __exit__(self, *a):
        global cur
        cur = None
