"""Recorded runs of forward_pass and csmc_kernel in the alphabet of CSMC.tla."""
import zlib
import numpy as np
import jax
import jax.numpy as jnp
from . import rec

SCALE = 65536


class Driver:
    def __init__(self, rng, n, K, shape, vshape, use_kw, refpos=True):
        self.rng, self.n, self.K, self.shape, self.vshape = rng, n, K, shape, vshape
        ts = rng.choice([0.0, 1.0, -2.0]) + np.concatenate([[0.0], np.cumsum(rng.choice([0.25, 0.5, 1.0, 2.0], size=K))])
        if rng.random() < 0.3:
            ts = ts[::-1]
        self.ts = ts.astype(np.float32)
        self.tidx = rec.Index(self.ts)
        self.vs = rec.encs([1000 + k for k in range(K + 1)], vshape)
        self.kw = int(rng.integers(1, 1000))
        self.salt = int(rng.integers(2 ** 30))
        self.ev, self.fresh, self.seen = [], 0, {}
        self.star = self.labels(K + 1)
        self.zeros = rng.random() < 0.5
        self.use_kw = use_kw

    def labels(self, k):
        r = list(range(self.fresh + 1, self.fresh + 1 + k))
        self.fresh += k
        return r

    def v(self, v):
        if tuple(np.shape(v)) != tuple(self.vshape):
            return -2
        x = rec.dec(v) - 1000
        return x if 0 <= x <= self.K else -1

    def us(self, us):
        return rec.decs(us, self.shape)

    def add(self, **e):
        self.ev.append(e)

    def weight(self, kind, *key):
        """A fixed function of its arguments; the reference states never get weight zero."""
        h = zlib.crc32(repr((self.salt, kind, key)).encode())
        if kind != "td" and self.zeros and key[0] not in self.star and h % 3 == 0:
            return 0
        return 1 + (h >> 8) % 7

    def logs(self, w):
        sh = zlib.crc32(repr((self.salt, w)).encode()) % 81 - 40
        with np.errstate(divide="ignore"):
            return (np.log(np.asarray(w, np.float64)) + sh).astype(np.float32)

    # callbacks
    def init_sampler(self, key, n):
        n = int(n)

        def f(*_):
            out = self.labels(n)
            self.add(e="init", n=n, out=out)
            return rec.encs(out, self.shape)
        return rec.call(f, rec.f32((n, *self.shape)), key)

    def init_lik(self, v0, us, v1, tag=None):
        def f(v0, us, v1, kw):
            u = self.us(us)
            w = [self.weight("ilik", x) for x in u]
            self.add(e="ilik", v0=self.v(v0), us=u, v1=self.v(v1), kw=int(kw), w=w)
            return self.logs(w)
        return rec.call(f, rec.f32((us.shape[0],)), v0, us, v1, -1 if tag is None else tag)

    def transition_sampler(self, us, v_prev, t_prev, key, tag=None):
        def f(us, v, t, kw, *_):
            out = self.labels(us.shape[0])
            self.add(e="prop", us=self.us(us), v=self.v(v), t=self.tidx(t), kw=int(kw), out=out)
            return rec.encs(out, self.shape)
        return rec.call(f, rec.f32(us.shape), us, v_prev, t_prev, -1 if tag is None else tag, key)

    def lik(self, v, us, v_prev, t_prev, tag=None):
        def f(v, us, vp, t, kw):
            e = dict(e="lik", us=self.us(us), v=self.v(v), vp=self.v(vp), t=self.tidx(t), kw=int(kw))
            w = [self.weight("lik", x, e["v"], e["vp"], e["t"]) for x in e["us"]]
            self.add(**e, w=w)
            return self.logs(w)
        return rec.call(f, rec.f32((us.shape[0],)), v, us, v_prev, t_prev, -1 if tag is None else tag)

    def transition_logpdf(self, x, us, v_prev, t_prev, tag=None):
        def f(x, us, v, t, kw):
            e = dict(e="td", x=rec.dec(x) if x.shape == tuple(self.shape) else -2, us=self.us(us), v=self.v(v), t=self.tidx(t), kw=int(kw))
            w = [self.weight("td", e["x"], y, e["v"], e["t"]) for y in e["us"]]
            self.add(**e, w=w)
            return self.logs(w)
        return rec.call(f, rec.f32((us.shape[0],)), x, us, v_prev, t_prev, -1 if tag is None else tag)

    def cond_resampling(self, key, weights, i, j, conditional=True):
        cond = bool(conditional)

        def f(w, i, j, *_):
            inds = self.rng.integers(0, len(w), len(w))
            sup = np.flatnonzero(np.asarray(w) > 1e-6)
            if sup.size:
                inds = self.rng.choice(sup, len(w))
            if 0 <= int(j) < len(w):
                inds[int(j)] = int(i)
            self.add(e="res", q=rec.quant(w, SCALE, 1_000_000), i=int(i), j=int(j), cond=cond, inds=[int(a) for a in inds])
            return inds.astype(np.int32)
        return rec.call(f, rec.i32(weights.shape), weights, i, j, key)


def trace(rng, seed, nfree, K, shape, vshape, mode, use_kw, jit=False):
    from fbs.samplers.csmc.csmc import forward_pass, csmc_kernel
    d = Driver(rng, nfree + 1, K, shape, vshape, use_kw)
    n = nfree + 1
    bs = [int(b) for b in rng.integers(0, n, K + 1)]
    kw = dict(tag=d.kw) if use_kw else {}
    c = dict(n=n, K=K, star=d.star, bs=bs, mode=mode, kw=d.kw if use_kw else -1)
    star, b = jnp.asarray(rec.encs(d.star, shape)), jnp.asarray(bs, jnp.int32)
    vs, ts = jnp.asarray(d.vs), jnp.asarray(d.ts)

    def go():
        if mode == "fwd":
            f = lambda key: forward_pass(key, star, b, vs, ts, d.init_sampler, d.init_lik, d.transition_sampler, d.lik,
                                         d.cond_resampling, nfree, **kw)
        else:
            f = lambda key: csmc_kernel(key, star, b, vs, ts, d.init_sampler, d.init_lik, d.transition_sampler,
                                        d.transition_logpdf, d.lik, d.cond_resampling, nfree, mode == "backward", **kw)
        key = jax.random.PRNGKey(seed)
        if jit:
            out = jax.jit(f)(key)
        else:
            with jax.disable_jit():
                out = f(key)
        return [np.asarray(o) for o in out]
    r, err = rec.observe(go)
    if err:
        d.ev.append(err)
    elif mode == "fwd":
        As, lw, us = r
        d.add(e="fret", As=[[int(a) for a in row] for row in As], us=[d.us(u) for u in us],
              q=[rec.quant(np.exp(row.astype(np.float64)), SCALE, 1_000_000) for row in lw])
    else:
        us, b2 = r
        d.add(e="ret", us=d.us(us), bs=[int(x) for x in b2])
    return dict(c=c, ev=d.ev, info=dict(fn="forward_pass" if mode == "fwd" else "csmc_kernel", seed=seed, n=n, K=K,
                                        shape=list(shape), mode=mode, kw=use_kw, jit=jit))
