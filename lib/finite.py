"""Finite-state models as JAX callbacks (tables are traced arguments, so one compilation serves many models).
States are floats 0..nu-1 of shape (1,), measurements v_k are the floats k, times are whatever grid is given."""
import numpy as np
import jax
import jax.numpy as jnp


def idx(x):
    return jnp.round(jnp.asarray(x)).astype(jnp.int32)


def st(us):
    """(n, 1) or (1,) states -> integer labels."""
    return idx(us)[..., 0]


def draw(key, rows):
    """One index per row of nonnegative weights, by inversion."""
    cum = jnp.cumsum(rows, axis=-1)
    u = jax.random.uniform(key, rows.shape[:-1]) * cum[..., -1]
    return jnp.sum(u[..., None] >= cum[..., :-1], axis=-1)


def col(x):
    return jnp.asarray(x, jnp.float32)[..., None]


class Model:
    """p0 (nu,), P (K, nu, nu), g (K, nu): as in ParticleLaw.tla, all integers."""

    def __init__(self, rng, nu, K, homogeneous=False, tot=4, dens=(1, 3)):
        def row():
            a = int(rng.integers(1, tot)) if nu == 2 else None
            return [a, tot - a] if nu == 2 else [int(x) for x in rng.multinomial(tot, np.full(nu, 1 / nu))]
        self.nu, self.K = nu, K
        self.p0 = row()
        self.P = [[row() for _ in range(nu)] for _ in range(K)]
        self.g = [[int(x) for x in rng.choice(dens, nu)] for _ in range(K)]
        for k in range(K):       # informative measurements
            if len(set(self.g[k])) == 1:
                self.g[k][int(rng.integers(nu))] = int([d for d in dens if d != self.g[k][0]][0])

    def json(self):
        return dict(nu=self.nu, p0=self.p0, P=self.P, g=self.g)

    def arrays(self):
        return dict(p0=jnp.asarray(self.p0, jnp.float32), P=jnp.asarray(self.P, jnp.float32),
                    g=jnp.asarray(self.g, jnp.float32))


def callbacks(M):
    """M: dict of (traced) tables."""
    def init_sampler(key, v0, n):
        return col(draw(key, jnp.broadcast_to(M["p0"], (n, M["p0"].shape[0]))))

    def transition_sampler(us, v_prev, t_prev, key, **kw):
        return col(draw(key, M["P"][idx(v_prev)[0], st(us)]))

    def lik_pdf(v, us, v_prev, t_prev, **kw):
        # depends on both v and v_prev: a mismatched pair gives a different density
        k, kp = idx(v)[0] - 1, idx(v_prev)[0]
        return M["g"][k, st(us)] * jnp.where(k == kp, 1., 7.)

    def lik_logpdf(*a, **kw):
        return jnp.log(lik_pdf(*a, **kw))
    return init_sampler, transition_sampler, lik_pdf, lik_logpdf
