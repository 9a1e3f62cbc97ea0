"""Recorded runs of the particle filters (bootstrap_filter and pmcmc_filter_step) in the alphabet of ParticleFilter.tla."""
import math
import numpy as np
import jax
import jax.numpy as jnp
from . import rec

LN2 = math.log(2.0)
SCALE, LSCALE = 65536, 1024


def random_weights(rng, n, style):
    """Integer weights with sum n * 2^m."""
    m = int(rng.integers(0, 4))
    tot = n * 2 ** m
    if style == "onehot":
        w = np.zeros(n, int)
        w[rng.integers(n)] = tot
    elif style == "uniform":
        w = np.full(n, 2 ** m)
    else:
        p = rng.dirichlet(np.full(n, 0.4 if style == "skew" else 2.0))
        w = rng.multinomial(tot, p)
    return w, m


def random_inds(rng, w):
    n = len(w)
    kind = rng.integers(4)
    sup = np.flatnonzero(w > 0)
    if kind == 0:
        return rng.integers(0, n, n)          # anything in range
    if kind == 1:
        return rng.permutation(n)
    if kind == 2:
        return np.sort(rng.choice(sup, n))
    return rng.choice(sup, n)


class Driver:
    """The user's side of one run."""

    def __init__(self, rng, n, K, shape, vshape, log=True, maxshift=400, ushape_extra=()):
        self.rng, self.n, self.K, self.shape, self.vshape, self.log = rng, n, K, shape, vshape, log
        self.maxshift = maxshift if log else min(maxshift, 20)
        steps = rng.choice([0.25, 0.5, 1.0, 2.0, 0.125], size=K)
        t0 = rng.choice([0.0, 1.0, -2.0, 0.5])
        ts = t0 + np.concatenate([[0.0], np.cumsum(steps)])
        if rng.random() < 0.2:
            ts = ts[::-1]
        self.ts = ts.astype(np.float32)
        self.tidx = rec.Index(self.ts)
        self.vs = rec.encs([1000 + k for k in range(K + 1)], vshape)
        self.kw = int(rng.integers(1, 1000))
        self.ev, self.fresh, self.memo = [], 0, {}

    def labels(self, k):
        r = list(range(self.fresh + 1, self.fresh + 1 + k))
        self.fresh += k
        return r

    def v(self, v):
        if tuple(np.shape(v)) != tuple(self.vshape):
            return -2
        x = rec.dec(v) - 1000
        return x if 0 <= x <= self.K else -1

    def us(self, us):
        return rec.decs(us, self.shape)

    def add(self, **e):
        self.ev.append(e)

    # user callbacks
    def init_sampler(self, key, v0, nparticles):
        n = int(nparticles)

        def f(v0, *_):
            out = self.labels(n)
            self.add(e="init", v=self.v(v0), n=n, out=out)
            return rec.encs(out, self.shape)
        return rec.call(f, rec.f32((n, *self.shape)), v0, key)

    def transition_sampler(self, us, v_prev, t_prev, key, tag=None):
        def f(us, v, t, kw, *_):
            m = us.shape[0] if us.ndim else 0
            out = self.labels(m)
            self.add(e="prop", us=self.us(us), v=self.v(v), t=self.tidx(t), kw=int(kw), out=out)
            return rec.encs(out, self.shape)
        return rec.call(f, rec.f32(us.shape), us, v_prev, t_prev, -1 if tag is None else tag, key)

    def lik(self, v, us, v_prev, t_prev, tag=None):
        def f(v, us, vp, t, kw):
            e = dict(e="lik", us=self.us(us), v=self.v(v), vp=self.v(vp), t=self.tidx(t), kw=int(kw))
            mk = repr(e)
            if mk not in self.memo:
                w, m = random_weights(self.rng, us.shape[0], self.rng.choice(["skew", "flat", "onehot", "uniform", "flat"]))
                sh = int(self.rng.integers(-self.maxshift, self.maxshift + 1)) if self.rng.random() < 0.6 else 0
                self.memo[mk] = (w, m, sh)
                self.add(**e, w=[int(x) for x in w], m=m + sh)
            w, m, sh = self.memo[mk]
            if self.log:
                with np.errstate(divide="ignore"):
                    return (np.log(w) + sh * LN2).astype(np.float32)
            return (w * 2.0 ** sh).astype(np.float32)
        return rec.call(f, rec.f32((us.shape[0],)), v, us, v_prev, t_prev, -1 if tag is None else tag)

    def resampling(self, weights, key):
        def f(w, *_):
            q = rec.quant(w, SCALE, 1_000_000)
            inds = random_inds(self.rng, np.asarray(w))
            self.add(e="sel", q=q, inds=[int(i) for i in inds])
            return np.asarray(inds, np.int32)
        return rec.call(f, rec.i32(weights.shape), weights, key)


def bootstrap_trace(rng, seed, n, K, shape, vshape, log, return_last, use_kw, jit=False):
    from fbs.samplers.smc import bootstrap_filter
    d = Driver(rng, n, K, shape, vshape, log)
    kw = dict(tag=d.kw) if use_kw else {}
    c = dict(n=n, K=K, order="prop-first", init=True, sign=-1, path=not return_last, kw=d.kw if use_kw else -1, u0=[])

    def go():
        f = lambda key: bootstrap_filter(d.transition_sampler, d.lik, jnp.asarray(d.vs), jnp.asarray(d.ts),
                                         d.init_sampler, key, n, d.resampling, log=log, return_last=return_last, **kw)
        if jit:
            us, nll = jax.jit(f)(jax.random.PRNGKey(seed))
        else:
            with jax.disable_jit():
                us, nll = f(jax.random.PRNGKey(seed))
        return np.asarray(us), np.asarray(nll)
    r, err = rec.observe(go)
    if err:
        d.ev.append(err)
    else:
        us, nll = r
        d.add(e="ret", us=d.us(us) if return_last else [d.us(u) for u in us], ell=rec.q1(nll / LN2, LSCALE))
    return dict(c=c, ev=d.ev, info=dict(fn="bootstrap_filter", seed=seed, n=n, K=K, shape=list(shape), log=log,
                                        return_last=return_last, kw=use_kw, jit=jit))


def pmcmc_filter_trace(rng, seed, n, K, shape, vshape, use_kw, jit=False):
    from fbs.samplers.smc import pmcmc_filter_step
    d = Driver(rng, n, K, shape, vshape, True)
    kw = dict(tag=d.kw) if use_kw else {}
    u0 = d.labels(n)
    c = dict(n=n, K=K, order="sel-first", init=False, sign=1, path=False, kw=d.kw if use_kw else -1, u0=u0)

    def go():
        f = lambda key: pmcmc_filter_step(key, jnp.asarray(d.vs), jnp.asarray(rec.encs(u0, shape)), jnp.asarray(d.ts),
                                          d.transition_sampler, d.lik, d.resampling, n, **kw)
        if jit:
            us, ell = jax.jit(f)(jax.random.PRNGKey(seed))
        else:
            with jax.disable_jit():
                us, ell = f(jax.random.PRNGKey(seed))
        return np.asarray(us), np.asarray(ell)
    r, err = rec.observe(go)
    if err:
        d.ev.append(err)
    else:
        us, ell = r
        d.add(e="ret", us=d.us(us), ell=rec.q1(ell / LN2, LSCALE))
    return dict(c=c, ev=d.ev, info=dict(fn="pmcmc_filter_step", seed=seed, n=n, K=K, shape=list(shape), kw=use_kw, jit=jit))
