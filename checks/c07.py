import _path  # noqa
import itertools
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, finite, lawtest


class Rev:
    """A separable model given in reversed time (see GibbsLaw.tla); states 0, 1."""

    def __init__(self, rng, K, ref):
        row = lambda: [[1, 3], [3, 1], [2, 2], [3, 1], [1, 3]][int(rng.integers(5))]
        if ref:
            r = row()
            self.p0 = [r, r]
        else:
            self.p0 = [[int(x) for x in rng.integers(1, 4, 2)] for _ in range(2)]
        self.T = [[[row() for _ in range(2)] for _ in range(2)] for _ in range(K)]
        self.G = [[[row() for _ in range(2)] for _ in range(2)] for _ in range(K)]
        for k in range(K):      # informative measurements
            for v in range(2):
                if self.G[k][v][0] == self.G[k][v][1]:
                    self.G[k][v][1] = [3, 1] if self.G[k][v][0] != [3, 1] else [1, 3]

    def json(self):
        return dict(p0=self.p0, T=self.T, G=self.G)

    def paths(self, K, y0, x0):
        res = []
        for us in itertools.product(range(2), repeat=K):
            for vs in itertools.product(range(2), repeat=K):
                u, v = us + (x0,), vs + (y0,)
                w = self.p0[u[0]][v[0]]
                for k in range(K):
                    w *= self.T[k][v[k]][u[k]][u[k + 1]] * self.G[k][v[k]][u[k]][v[k + 1]]
                res.append((u, v, w))
        return res


def body(c):
    for n, k, j in ([(2, 1, False), (2, 1, True)] if not c.thorough else [(2, 1, False), (2, 1, True), (3, 1, False), (2, 2, False)]):
        r = tlc.check("GibbsLawMC", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d JOINT=%s\nINVARIANT Invariant\nCHECK_DEADLOCK FALSE\n"
                      % (n, k, str(j).upper()), workers=8, timeout=3000)
        c.tlc(r, "GibbsLawMC N=%d K=%d joint=%s: conditional law invariant" % (n, k, j))
    from fbs.samplers.gibbs import gibbs_kernel
    rng = np.random.default_rng(c.seed + 7)
    cases = []
    for n, K in [(2, 2), (3, 1)] + ([(3, 2), (2, 3), (4, 1)] if c.thorough else []):
        for ref in (False, True):
            for expl in (False, True):
                for _ in range(4 if c.thorough else 1):
                    m, y0, bs = Rev(rng, K, ref), int(rng.integers(2)), [int(b) for b in rng.integers(0, n - (expl and ref), K + 1)]
                    for x0 in range(2):
                        cases.append((n, K, ref, expl, m, y0, bs, x0))
    req, where = [], []
    for i, (n, K, ref, expl, m, y0, bs, x0) in enumerate(cases):
        for u, v, w in m.paths(K, y0, x0):
            req.append(dict(m=m.json(), n=n, K=K, ref=ref, expl=expl, us=[a + 1 for a in u], vs=[a + 1 for a in v], bs=[b + 1 for b in bs]))
            where.append((i, w))
    laws, r = tlc.laws("GibbsLawX", req, timeout=3000)
    c.tlc(r, "GibbsLawX")
    N = 500_000 if c.thorough else 100_000
    jits = {}

    def runner(n, K, ref, expl):
        import types
        sde = types.SimpleNamespace()
        ts = jnp.arange(K + 1) * 0.25

        def one(key, M, us, vs, ws, x0, y0, bs):
            st = lambda u: (u[..., 0] > 0).astype(jnp.int32)      # a state is the sign of a float
            val = lambda s: jnp.where(s > 0, 1., -1.)[..., None]

            def tk(t, v):      # a time that does not belong to its v shows as a wrong index
                return finite.idx(4 * t)

            def fwd(key_, x, y):
                # the path law given (x, y); rows of the table all end in x0, y0
                i = finite.draw(key_, ws[st(x)][None])[0]
                return jnp.concatenate([val(us[st(x), i]), vs[st(x), i][..., None].astype(jnp.float32) + 5. * (y[0] != y0)], axis=1)[::-1]

            def trs(u, v, t, key_):
                return val(finite.draw(key_, M["T"][tk(t, v), finite.idx(v)[0], st(u)]))

            def lik(v, u, vp, t):
                return jnp.log(M["G"][tk(t, v), finite.idx(vp)[0], st(u), finite.idx(v)[0]])

            def td(*a):
                return jnp.full((n,), jnp.nan)
            x1, u1, b1, _ = gibbs_kernel(key, val(x0), y0[None], jnp.zeros((K + 1, 1)), bs, ts, fwd, sde, lambda p: (p[:, :1], p[:, 1:]),
                                         n - 1 if ref else n, trs, td, lik, marg_y=False, explicit_backward=expl, explicit_final=ref)
            return jnp.concatenate([st(x1)[None], st(u1), b1])
        return jax.jit(jax.vmap(one, in_axes=(0,) + (None,) * 7))
    key = jax.random.PRNGKey(c.seed + 77)
    for k, (n, K, ref, expl, m, y0, bs, x0) in enumerate(cases):
        cfg = (n, K, ref, expl)
        name = "gibbs_kernel particles=%d K=%d explicit_final=%s explicit_backward=%s x0=%d y0=%d bs=%s model %s" % (
            n, K, ref, expl, x0, y0, bs, m.json())
        jits.setdefault(cfg, runner(*cfg))
        law, tot = {}, Fraction(0)
        for (i, w), l in zip(where, laws):
            if i == k:
                tot += w
                for o, p in l.items():
                    kk = (o[0] - 1,) + sum([tuple(a - 1 for a in q) for q in o[1:]], ())
                    law[kk] = law.get(kk, 0) + w * p
        law = {o: p / tot for o, p in law.items()}
        P = [m.paths(K, y0, x) for x in range(2)]
        us = np.array([[p[0] for p in q] for q in P])
        vs = np.array([[p[1] for p in q] for q in P])
        ws = np.array([[p[2] for p in q] for q in P], float)
        M = dict(T=jnp.asarray(m.T, jnp.float32), G=jnp.asarray(m.G, jnp.float32))
        x, err = rec.observe(lambda: np.asarray(jits[cfg](jax.random.split(jax.random.fold_in(key, k), N), M, jnp.asarray(us), jnp.asarray(vs),
                                                          jnp.asarray(ws, jnp.float32), jnp.asarray(x0), jnp.asarray(float(y0)), jnp.asarray(bs, jnp.int32))))
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        if expl:
            x = np.concatenate([x[:, :1], x[:, K + 2:]], axis=1)
        ok, msg = lawtest.compare(lawtest.outcome_counts(x), law, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, result=msg), limit=6)
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9")


report.main("C07", body)
