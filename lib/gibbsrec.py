"""Recorded chains of gibbs_kernel, runs of gibbs_init and of the backward smoother, in the alphabets of Gibbs.tla and
Smoother.tla."""
import zlib
import numpy as np
import jax
import jax.numpy as jnp
from . import rec

BR = 100000


class StubSDE:
    """A bridge without noise: the bridge from y0 to yT is the straight line, so that a value names its time."""

    def bridge_drift(self, x, t, target, T):
        return (target - x) / (T - t)

    def dispersion(self, t):
        return 0. * t


class Driver:
    def __init__(self, rng, K, shape, vshape, use_kw, mode, np_):
        self.rng, self.K, self.shape, self.vshape, self.mode, self.np = rng, K, tuple(shape), tuple(vshape), mode, np_
        ts = rng.choice([0.0, 0.5, 1.0]) + np.concatenate([[0.0], np.cumsum(rng.choice([0.25, 0.5, 1.0], size=K))])
        self.ts = ts.astype(np.float32)
        self.tidx = rec.Index(self.ts)
        self.kw = int(rng.integers(1, 1000))
        self.salt = int(rng.integers(2 ** 30))
        self.ev, self.fresh, self.path, self.star = [], 0, None, set()
        self.normal, self.normals = {}, []
        self.y0 = 7001
        self.ylab = 7001
        self.dx = int(np.prod(self.shape))
        self.dy = int(np.prod(self.vshape))

    def labels(self, k):
        r = list(range(self.fresh + 1, self.fresh + 1 + k))
        self.fresh += k
        return r

    def add(self, **e):
        self.ev.append(e)

    def x(self, x):
        """Label of one u state; standard normal draws of the code are named by first appearance."""
        x = np.asarray(x, np.float32)
        if tuple(x.shape) != self.shape:
            return -2
        if not np.any(x):
            return 0
        r = rec.dec(x)
        if r > 0 or not np.all(np.isfinite(x)):
            return r
        b = x.tobytes()
        if b not in self.normal:
            self.normal[b] = self.labels(1)[0]
            self.normals += [float(z) for z in x.ravel()]
        return self.normal[b]

    def us(self, us):
        us = np.asarray(us)
        return [self.x(u) for u in us] if us.ndim else [-2]

    def y(self, y):
        y = np.asarray(y, np.float64)
        if tuple(y.shape) != self.vshape:
            return -2
        r = rec.dec(y)
        if r > 0 and self.path is not None and r in self.path:
            return r
        if self.path is not None:        # on the line between the ends of the current y path?
            a, b = [rec.enc(z, self.vshape).astype(np.float64) for z in (self.path[0], self.path[-1])]
            s = (self.ts - self.ts[0]) / (self.ts[-1] - self.ts[0])
            for j in range(1, self.K):
                if np.max(np.abs(a + (b - a) * s[j] - y)) < 2.0:
                    return BR + j
        return r if r > 0 else -1

    # callbacks
    def fwd(self, key, x0, y0, tag=None):
        def f(x0, y0, kw, *_):
            x = self.x(x0)
            y = rec.dec(y0) if tuple(y0.shape) == self.vshape else -2
            xs = [x] + self.labels(self.K)
            # away from the straight line between the ends, and all different
            self.ylab += 40
            end = self.ylab + int(self.rng.integers(3000, 9000)) // 40 * 40
            ys = [y] + [30000 + 40 * self.K * len(self.ev) + 40 * j + self.ylab for j in range(1, self.K)] + ([end] if self.K else [])
            self.add(e="fwd", x=x, y=y, kw=int(kw), xs=xs, ys=ys)
            if len([1 for e in self.ev if e["e"] == "fwd"]) > self.nfwd:
                self.nfwd = 10 ** 9
                self.path, self.star = ys, set(xs)
            X = np.concatenate([x0[None], rec.encs(xs[1:], self.shape)]).reshape(self.K + 1, -1)
            Y = rec.encs(ys, self.vshape).reshape(self.K + 1, -1)
            return np.concatenate([Y, X], axis=1).astype(np.float32)
        return rec.call(f, rec.f32((self.K + 1, self.dx + self.dy)), x0, y0, -1 if tag is None else tag, key)

    def unpack(self, path, tag=None):
        self.add(e="unpack", kw=-1 if tag is None else self.kw)
        return (path[..., self.dy:].reshape(*path.shape[:-1], *self.shape),
                path[..., :self.dy].reshape(*path.shape[:-1], *self.vshape))

    def begin_sweep(self):
        self.nfwd = len([1 for e in self.ev if e["e"] == "fwd"])
        self.path = None

    def transition_sampler(self, us, v_prev, t_prev, key, tag=None):
        def f(us, v, t, kw, *_):
            u = self.us(us)
            out = self.labels(us.shape[0])
            self.add(e="prop", us=u, v=self.y(v), t=self.tidx(t), kw=int(kw), out=out)
            return rec.encs(out, self.shape)
        return rec.call(f, rec.f32(us.shape), us, v_prev, t_prev, -1 if tag is None else tag, key)

    def weight(self, kind, *key):
        h = zlib.crc32(repr((self.salt, kind, key)).encode())
        if h % 3 == 0 and key[0] not in self.star:
            return 0
        return 1 + (h >> 8) % 7

    def lik(self, v, us, v_prev, t_prev, tag=None):
        def f(v, us, vp, t, kw):
            u = self.us(us)
            e = dict(us=u, v=self.y(v), vp=self.y(vp), t=self.tidx(t), kw=int(kw))
            w = [self.weight("lik", x, e["v"], e["vp"], e["t"]) for x in u]
            if not any(w):
                w = [1 for _ in w]
            self.add(e="lik", **e, w=w)
            return self.logs(w)
        return rec.call(f, rec.f32((us.shape[0],)), v, us, v_prev, t_prev, -1 if tag is None else tag)

    def transition_logpdf(self, x, us, v_prev, t_prev, tag=None):
        def f(x, us, v, t, kw):
            u = self.us(us)
            e = dict(x=self.x(x), us=u, v=self.y(v), t=self.tidx(t), kw=int(kw))
            w = [self.weight("td", y, e["x"], e["v"], e["t"]) for y in u]
            if not any(w):
                w = [1 for _ in w]
            self.add(e="td", **e, w=w)
            return self.logs(w)
        return rec.call(f, rec.f32((us.shape[0],)), x, us, v_prev, t_prev, -1 if tag is None else tag)

    def logs(self, w):
        with np.errstate(divide="ignore"):
            return (np.log(np.asarray(w, np.float64)) + float(self.rng.integers(-30, 30))).astype(np.float32)


def kernel_trace(rng, seed, n, K, shape, vshape, steps, marg, expl, ref, use_kw, garbage, jit=False):
    from fbs.samplers.gibbs import gibbs_kernel
    np_ = n + 1 if ref else n
    d = Driver(rng, K, shape, vshape, use_kw, "kernel", np_)
    kw = dict(tag=d.kw) if use_kw else {}
    x0 = d.labels(1)[0]
    bs = [int(b) for b in rng.integers(0, np_ if not expl else n, K + 1)]
    c = dict(mode="kernel", K=K, np=np_, n=n, y0=d.y0, x0=x0, bs=bs, marg=marg, expl=expl, ref=ref, method="",
             kw=d.kw if use_kw else -1, steps=steps)
    d.path = None
    X, Y = jnp.asarray(rec.enc(x0, shape)), jnp.asarray(rec.enc(d.y0, vshape))
    U, B = jnp.asarray(rec.encs(d.labels(K + 1), shape)), jnp.asarray(bs, jnp.int32)
    f = lambda key, X, U, B: gibbs_kernel(key, X, Y, U, B, jnp.asarray(d.ts), d.fwd, StubSDE(), d.unpack, n,
                                          d.transition_sampler, d.transition_logpdf, d.lik, marg_y=marg,
                                          explicit_backward=expl, explicit_final=ref, **kw)
    g = jax.jit(f) if jit else f
    key = jax.random.PRNGKey(seed)
    for s in range(steps):
        d.begin_sweep()

        def go():
            if jit:
                return [np.asarray(o) for o in g(jax.random.fold_in(key, s), X, U, B)]
            with jax.disable_jit():
                return [np.asarray(o) for o in g(jax.random.fold_in(key, s), X, U, B)]
        r, err = rec.observe(go)
        if err:
            d.ev.append(err)
            break
        x1, us, b2, fl = r
        d.add(e="ret", x=d.x(x1), us=d.us(us), bs=[int(b) for b in np.atleast_1d(b2)], fl=[bool(z) for z in np.atleast_1d(fl)])
        X, B = jnp.asarray(x1), jnp.asarray(b2)
        U = jnp.asarray(rec.encs(d.labels(K + 1), shape)) if garbage else jnp.asarray(us)
        d.normal = {} if not ref else d.normal
    return dict(c=c, ev=d.ev, normals=d.normals, info=dict(fn="gibbs_kernel", seed=seed, n=n, K=K, shape=list(shape), steps=steps, marg_y=marg,
                                                           explicit_backward=expl, explicit_final=ref, kw=use_kw, jit=jit))


def init_trace(rng, seed, n, K, shape, vshape, method, marg, x0none, use_kw, jit=False):
    from fbs.samplers.gibbs import gibbs_init
    d = Driver(rng, K, shape, vshape, use_kw, "init", n)
    kw = dict(tag=d.kw) if use_kw else {}
    x0 = 0 if x0none else d.labels(1)[0]
    c = dict(mode="init", K=K, np=n, n=n, y0=d.y0, x0=x0, bs=[0] * (K + 1), marg=marg, expl=False, ref=True, method=method,
             kw=d.kw if use_kw else -1, steps=1)
    Y = jnp.asarray(rec.enc(d.y0, vshape))
    X = None if x0none else jnp.asarray(rec.enc(x0, shape))
    d.begin_sweep()

    def go():
        f = lambda key: gibbs_init(key, Y, tuple(shape), jnp.asarray(d.ts), d.fwd, StubSDE(), d.unpack, d.transition_sampler,
                                   d.transition_logpdf, d.lik, n, method=method, marg_y=marg, x0=X, **kw)
        if jit:
            r = jax.jit(f)(jax.random.PRNGKey(seed))
        else:
            with jax.disable_jit():
                r = f(jax.random.PRNGKey(seed))
        return [None if o is None else np.asarray(o) for o in r]
    r, err = rec.observe(go)
    if err:
        d.ev.append(err)
    else:
        a, us = r
        if method == "debug":
            d.add(e="iret", x=-1, us=[] if us is None else d.us(us), all=[d.us(u) for u in a])
        else:
            d.add(e="iret", x=d.x(a), us=d.us(us), all=[])
    return dict(c=c, ev=d.ev, normals=d.normals, info=dict(fn="gibbs_init", seed=seed, n=n, K=K, shape=list(shape), method=method,
                                                           marg_y=marg, x0_default=x0none, kw=use_kw, jit=jit))


def reference_draws(fn, seed, n=6000):
    """The initial particles of one call with flat weights and many particles, as an (n, 2) array."""
    from fbs.samplers.gibbs import gibbs_kernel, gibbs_init
    got = []

    def trs(us, v, t, key):
        return rec.call(lambda u: (got.append(u), u)[1], rec.f32(us.shape), us)
    fwd = lambda key, x, y: jnp.concatenate([jnp.zeros((3, 2)), jnp.zeros((3, 1))], axis=1)
    unpack = lambda p: (p[:, :2], p[:, 2:])
    lik = lambda v, us, vp, t: jnp.zeros(us.shape[0])
    td = lambda u, us, v, t: jnp.zeros(us.shape[0])
    ts, key, y = jnp.array([0., 1., 2.]), jax.random.PRNGKey(seed), jnp.zeros(1)
    with jax.disable_jit():
        if fn == "init":
            gibbs_init(key, y, (2,), ts, fwd, StubSDE(), unpack, trs, td, lik, n, method="debug", marg_y=False)
        else:
            gibbs_kernel(key, jnp.zeros(2), y, jnp.zeros((3, 2)), jnp.zeros(3, jnp.int32), ts, fwd, StubSDE(), unpack, n,
                         trs, td, lik, marg_y=False, explicit_backward=True, explicit_final=True)
    u = np.asarray(got[0], np.float64)
    return u[np.any(u != 0, axis=1)]        # without the reference slot


def reference_ok(z):
    """(ok, message): are the rows independent standard normal vectors?"""
    from scipy import stats
    m = len(z)
    if m < 3000:
        return False, "only %d particles were drawn" % m
    p = [stats.kstest(col, "norm").pvalue for col in z.T]
    p.append(stats.kstest(z[:, 0] * z[:, 1], (z[:, 0] * np.random.default_rng(5).standard_normal(m))).pvalue)
    p += [2 * stats.norm.sf(abs((z ** 2).mean() - 1) / np.sqrt(2 / z.size)), 2 * stats.norm.sf(abs(z.mean()) * np.sqrt(z.size))]
    lag = [float(np.mean(a * b)) * np.sqrt(len(a)) for a, b in
           [(z[:, 0], z[:, 1]), (z[1:, 0], z[:-1, 0]), (z[1:, 0], z[:-1, 1]), (z[m // 2:, 0], z[:m - m // 2, 0])]]
    p += [2 * stats.norm.sf(abs(x)) for x in lag]
    u = len(np.unique(z)) / z.size
    return min(p) > 1e-9 and u > 0.99, "smallest p=%.2g, %.1f%% distinct, %d draws" % (min(p), 100 * u, z.size)


def smoother_trace(rng, seed, n, K, shape, vshape, use_kw, jit=False):
    from fbs.samplers.smc import bootstrap_backward_smoother
    d = Driver(rng, K, shape, vshape, use_kw, "smoother", n)
    kw = dict(tag=d.kw) if use_kw else {}
    F = [d.labels(n) for _ in range(K + 1)]
    for row in F:
        for i in range(n):
            if rng.random() < 0.2:
                row[i] = row[int(rng.integers(n))]      # repeated particles
    vs = rec.encs([1000 + k for k in range(K + 1)], vshape)
    d.y = lambda v: rec.dec(v) - 1000 if tuple(np.shape(v)) == tuple(vshape) else -2
    fus = np.stack([rec.encs(row, shape) for row in F])
    c = dict(K=K, kw=d.kw if use_kw else -1, F=F)

    def go():
        f = lambda key: bootstrap_backward_smoother(key, jnp.asarray(fus), jnp.asarray(vs), jnp.asarray(d.ts), d.transition_logpdf, **kw)
        if jit:
            r = jax.jit(f)(jax.random.PRNGKey(seed))
        else:
            with jax.disable_jit():
                r = f(jax.random.PRNGKey(seed))
        return np.asarray(r)
    r, err = rec.observe(go)
    if err:
        d.ev.append(err)
    else:
        d.add(e="ret", us=d.us(r))
    return dict(c=c, ev=d.ev, info=dict(fn="bootstrap_backward_smoother", seed=seed, n=n, K=K, shape=list(shape), kw=use_kw, jit=jit))
