"""Recorded runs of twisted_smc in the alphabet of Twisted.tla."""
import zlib
import numpy as np
import jax
import jax.numpy as jnp
from . import rec
from .pf import random_inds

LN2 = np.log(2.0)
SCALE = 65536


def trace(rng, seed, n, K, shape, yshape, use_kw, jit=False):
    from fbs.samplers.smc import twisted_smc
    ts = (rng.choice([0.0, 1.0, -1.0]) + np.concatenate([[0.0], np.cumsum(rng.choice([0.25, 0.5, 1.0, 2.0], size=K))])).astype(np.float32)
    if rng.random() < 0.5:
        ts = ts[::-1].copy()
    tidx = rec.Index(ts)
    kwv, salt = int(rng.integers(1, 1000)), int(rng.integers(2 ** 30))
    kw = dict(tag=kwv) if use_kw else {}
    ev, memo, fresh = [], {}, [0]
    zeros, off = rng.random() < 0.5, int(rng.integers(-40, 40))
    ylab = 777
    c = dict(n=n, K=K, y=ylab, kw=kwv if use_kw else -1)

    def labels(k):
        r = list(range(fresh[0] + 1, fresh[0] + 1 + k))
        fresh[0] += k
        return r

    def us(x):
        return rec.decs(x, shape)

    def expo(kind, mk, i, lab):
        h = zlib.crc32(repr((salt, kind, mk, i)).encode())
        if kind == "tw" and zeros and i > 0 and h % 4 == 0:
            return -1000
        return (h >> 8) % 5

    def dens(kind, e, add):
        mk = repr(e)
        if mk not in memo:
            memo[mk] = [expo(kind, mk, i, x) for i, x in enumerate(e["us"])]
            ev.append(dict(e, w=memo[mk]))
        return np.array([-np.inf if x <= -1000 else (x + add) * LN2 for x in memo[mk]], np.float32)

    def init_sampler(key, m):
        m = int(m)

        def f(*_):
            out = labels(m)
            ev.append(dict(e="init", n=m, out=out))
            return rec.encs(out, shape)
        return rec.call(f, rec.f32((m, *shape)), key)

    def yl(y):
        return rec.dec(y) if np.shape(y) == tuple(yshape) else -2

    def tw(y, xs, t, tag=None):
        return rec.call(lambda y, xs, t, g: dens("tw", dict(e="tw", us=us(xs), t=tidx(t), y=yl(y), kw=int(g)), off),
                        rec.f32((xs.shape[0],)), y, xs, t, -1 if tag is None else tag)

    def td(xs, xp, t, **_):
        return rec.call(lambda xs, xp, t: dens("td", dict(e="td", us=us(xs), up=us(xp), t=tidx(t)), 2 * off),
                        rec.f32((xs.shape[0],)), xs, xp, t)

    def pd(xs, xp, t, y, tag=None):
        return rec.call(lambda xs, xp, t, y, g: dens("pd", dict(e="pd", us=us(xs), up=us(xp), t=tidx(t), y=yl(y), kw=int(g)), -off),
                        rec.f32((xs.shape[0],)), xs, xp, t, y, -1 if tag is None else tag)

    def prop(key, xp, t, y, tag=None):
        def f(k, xp, t, y, g):
            out = labels(xp.shape[0])
            ev.append(dict(e="prop", us=us(xp), t=tidx(t), y=yl(y), kw=int(g), out=out))
            return rec.encs(out, shape)
        return rec.call(f, rec.f32(xp.shape), key, xp, t, y, -1 if tag is None else tag)

    def resampling(w, key):
        def f(w, *_):
            inds = random_inds(rng, np.asarray(w) > 1e-7) if np.any(np.asarray(w) > 1e-7) else np.zeros(len(w), int)
            w = np.asarray(w)
            bad = w[inds] <= 1e-7
            if bad.any() and not bad.all():      # a resampler never selects weight zero
                inds = np.where(bad, np.argmax(w), inds)
            ev.append(dict(e="sel", q=rec.quant(w, SCALE, 1_000_000), inds=[int(a) for a in inds]))
            return np.asarray(inds, np.int32)
        return rec.call(f, rec.i32(w.shape), w, key)

    def go():
        f = lambda key: twisted_smc(key, jnp.asarray(rec.enc(ylab, yshape)), jnp.asarray(ts), init_sampler, td, tw, prop, pd,
                                    resampling, n, **kw)
        key = jax.random.PRNGKey(seed)
        if jit:
            out = jax.jit(f)(key)
        else:
            with jax.disable_jit():
                out = f(key)
        return [np.asarray(o) for o in out]
    r, err = rec.observe(go)
    if err:
        ev.append(err)
    else:
        ev.append(dict(e="ret", us=us(r[0]), q=rec.quant(np.exp(r[1].astype(np.float64)), SCALE, 1_000_000)))
    return dict(c=c, ev=ev, info=dict(fn="twisted_smc", seed=seed, n=n, K=K, shape=list(shape), kw=use_kw, jit=jit))
