"""Recorded chains of pmcmc_kernel in the alphabet of PMCMC.tla, and pCN regressions."""
import numpy as np
import jax
import jax.numpy as jnp
from . import rec, pf

LN2 = pf.LN2


class Driver(pf.Driver):
    """Measurement entries are labels >= 5000 drawn path by path; times of the filter are indices of ts."""

    def __init__(self, rng, n, K, shape, vshape, small):
        super().__init__(rng, n, K, shape, vshape, log=True)
        self.small = small
        self.pathlab = 5000
        self.y0 = 4999
        self.names, self.cur, self.obs = {}, None, []

    def v(self, v):
        v = np.asarray(v, np.float32)
        if tuple(v.shape) != tuple(self.vshape):
            return -2
        b = v.tobytes()
        if self.cur is not None and b not in self.names:     # a new proposed path: v_0, v_1, .. in order of appearance
            if len(self.obs) > self.K:
                return -1
            self.names[b] = self.cur[self.K - len(self.obs)]
            self.obs.append(v)
        return self.names.get(b, rec.dec(v))

    def path_labels(self):
        self.pathlab += self.K
        return [self.y0] + list(range(self.pathlab, self.pathlab + self.K))

    def fwd_ys(self, key, y0):
        def f(y0, *_):
            out = self.path_labels()
            self.add(e="fwd", y=rec.dec(y0), out=out)
            return rec.encs(out, self.vshape)
        return rec.call(f, rec.f32((self.K + 1, *self.vshape)), y0, key)

    def ref(self, key, v0, n):
        n = int(n)

        def f(v0, *_):
            out = self.labels(n)
            self.add(e="ref", v=self.v(v0), n=n, out=out)
            return rec.encs(out, self.shape)
        return rec.call(f, rec.f32((n, *self.shape)), v0, key)

    def lik(self, v, us, v_prev, t_prev, tag=None):
        def f(v, us, vp, t, kw):
            e = dict(e="lik", us=self.us(us), v=self.v(v), vp=self.v(vp), t=self.tidx(t), kw=int(kw))
            mk = repr(e)
            if mk not in self.memo:
                w, m = pf.random_weights(self.rng, us.shape[0], self.rng.choice(["skew", "flat", "onehot", "uniform"]))
                sh = int(self.rng.integers(-3, 2)) - m if self.small or self.rng.random() < 0.8 else int(self.rng.integers(-200, 200))
                self.memo[mk] = (w, m, sh)
                self.add(**e, w=[int(x) for x in w], m=m + sh)
            w, m, sh = self.memo[mk]
            with np.errstate(divide="ignore"):
                return (np.log(w) + sh * LN2).astype(np.float32)
        return rec.call(f, rec.f32((us.shape[0],)), v, us, v_prev, t_prev, -1 if tag is None else tag)


def regress(p, x_, m_, rs, delta, **kw):
    """Coefficients of p on x, m and the draws, as an event of PCN.tla."""
    cols = [np.asarray(z, np.float64).ravel() for z in (x_, m_, *rs)]
    p = np.asarray(p, np.float64).ravel()
    A = np.stack(cols, axis=1)
    co, *_ = np.linalg.lstsq(A, p, rcond=None)
    res = np.max(np.abs(A @ co - p)) / max(1.0, np.max(np.abs(p)))
    q = rec.quant(co, 8192, 10 ** 6)
    num, den = delta
    return dict(kw, a=q[0], b=q[1], cs=q[2:], nd=len(rs), res=rec.q1(res, 65536, 10 ** 6), num=num, den=den)


def pcn_event(delta, old, mean_, rs, obs, K, **kw):
    num, den = float(delta).as_integer_ratio()
    p = np.stack(obs[::-1]) if len(obs) == K + 1 else np.full(np.shape(old), 1e6)
    return regress(p, old, mean_, rs, (num, den), e="pcn", **kw)


def chain(rng, seed, n, K, shape, vshape, use_kw, steps, which, small=True, jit=False, delta=None):
    from fbs.samplers.smc import pmcmc_kernel
    d = Driver(rng, n, K, shape, vshape, small)
    kw = dict(tag=d.kw) if use_kw else {}
    u0, ys0 = d.labels(1)[0], d.path_labels()
    if delta is not None:       # generic real-valued paths
        P0 = rng.normal(size=(K + 1, *vshape)).astype(np.float32)
        for lab, row in zip(ys0, P0):
            d.names[row.tobytes()] = lab
    else:
        P0 = rec.encs(ys0, vshape)
    ell0 = int(rng.integers(-6, 3))
    c = dict(n=n, K=K, kw=d.kw if use_kw else -1, y0=d.y0, which=which % n, u0=u0, ell0=ell0, ys0=ys0, delta=delta is not None, steps=steps)
    y0v = rec.enc(d.y0, vshape)
    draws, means = [], []

    class Sde:
        def mean(self, t, s, m):
            def f(t, s, m):
                t, s = np.asarray(t), np.asarray(s)
                means.append((d.tidx(t), d.tidx(s), rec.dec(m)))
                return mean_table[means[-1][0]] if means[-1][0] >= 0 else np.full(vshape, 1e4, np.float32)
            return rec.call(f, rec.f32(vshape), t, s, m)
    mean_table = rng.normal(size=(K + 1, *vshape)).astype(np.float32) * 3

    def fwd_normal(key, y0):
        def f(y0, k):
            x = np.random.default_rng([int(z) for z in np.asarray(k).ravel()]).normal(size=(K + 1, *vshape)).astype(np.float32)
            draws.append((rec.dec(y0), x))
            return x
        return rec.call(f, rec.f32((K + 1, *vshape)), y0, key)

    state = dict(uT=rec.enc(u0, shape), ell=np.float32(ell0 * LN2), ys=P0)

    def step(key, uT, ell, ys):
        return pmcmc_kernel(key, uT, ell, ys, jnp.asarray(y0v), jnp.asarray(d.ts), d.fwd_ys if delta is None else fwd_normal, Sde(),
                            d.ref, d.transition_sampler, d.lik, d.resampling, n, delta, which, **kw)
    f = jax.jit(step) if jit else step
    for k in range(steps):
        start, old_ys = len(d.ev), state["ys"]
        old_labels = [d.v(y) for y in old_ys]
        draws.clear()
        means.clear()
        if delta is not None:
            d.cur = d.path_labels()
            d.cur[0] = d.path_labels()[-1]
            d.obs = []

        def go():
            key = jax.random.PRNGKey(seed + k)
            args = (key, jnp.asarray(state["uT"]), jnp.asarray(state["ell"]), jnp.asarray(state["ys"]))
            if jit:
                out = f(*args)
            else:
                with jax.disable_jit():
                    out = f(*args)
            return jax.tree_util.tree_map(np.asarray, out)
        r, err = rec.observe(go)
        if err:
            d.ev.append(err)
            break
        uT, ell, ys, ms = r
        if delta is not None:
            d.ev.insert(start, pcn_event(delta, old_ys, mean_table, [x for _, x in draws], d.obs, K,
                                         x=old_labels, out=d.cur,
                                         mean=set(means) == {(j, 0, d.y0) for j in range(K + 1)},
                                         y=d.y0 if all(y == d.y0 for y, _ in draws) else -1))
        d.add(e="ret", old=rec.q1(ms.log_ell / LN2, pf.LSCALE), new=rec.q1(ms.prop_log_ell / LN2, pf.LSCALE),
              prob=rec.q1(ms.acceptance_prob, pf.SCALE, 10 ** 6), acc=bool(ms.is_accepted), uT=rec.dec(uT) if uT.shape == tuple(shape) else -2,
              ell=rec.q1(ell / LN2, pf.LSCALE), ys=[d.v(y) for y in ys])
        state = dict(uT=uT, ell=ell, ys=ys)
    return dict(c=c, ev=d.ev, info=dict(fn="pmcmc_kernel", seed=seed, n=n, K=K, shape=list(shape), kw=use_kw, which=which, jit=jit, delta=delta))
