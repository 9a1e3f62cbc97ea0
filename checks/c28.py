import _path  # noqa
import itertools
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, finite, lawtest

SORTED = ("systematic", "stratified", "multinomial")


class PModel:
    def __init__(self, rng, K, npaths, dens):
        row = lambda t: [int(a) for a in t[int(rng.integers(len(t)))]]
        P = [(1, 3), (3, 1), (2, 2)]
        self.r = [row(P), row(P)]
        self.T = [[[row(P) for _ in range(2)] for _ in range(2)] for _ in range(K)]
        self.G = [[[[int(a) for a in rng.permutation(dens)] for _ in range(2)] for _ in range(2)] for _ in range(K)]
        for k in range(K):
            for v in range(2):
                self.G[k][v][1] = self.G[k][v][0][::-1]
        allv = list(itertools.product(range(2), repeat=K))
        y0 = int(rng.integers(2))
        pick = rng.choice(len(allv), min(npaths, len(allv)), replace=False)
        self.vs = [list(allv[int(i)]) + [y0] for i in pick]
        self.q = [int(x) for x in rng.integers(1, 4, len(self.vs))]
        self.y0 = y0

    def json(self):
        return dict(q=self.q, vs=[[a + 1 for a in v] for v in self.vs], r=self.r, T=self.T, G=self.G)

    def alpha(self, K, i):
        v = self.vs[i]
        a = [Fraction(x, sum(self.r[v[0]])) for x in self.r[v[0]]]
        for k in range(K):
            a = [sum(a[u] * self.G[k][v[k]][u][v[k + 1]] * Fraction(self.T[k][v[k]][u][w], sum(self.T[k][v[k]][u])) for u in range(2))
                 for w in range(2)]
        return a


def body(c):
    ALL = '{"systematic","stratified","multinomial","killing"}'
    for n, k, S in ([(2, 1, ALL), (3, 1, ALL)] if not c.thorough else [(2, 1, ALL), (2, 2, ALL), (3, 1, ALL), (4, 1, '{"systematic","killing"}')]):
        r = tlc.check("PMCMCLawMC", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d SCHEMES=%s\nINVARIANTS Balance Marginal\nCHECK_DEADLOCK FALSE\n"
                      % (n, k, S), workers=8, timeout=3000)
        c.tlc(r, "PMCMCLawMC N=%d K=%d %s" % (n, k, S))
    # the model can tell: always taking the same slot of a sorted scheme is biased
    r = tlc.run("PMCMCLawMC", 'SPECIFICATION Spec\nCONSTANTS N=3 K=1 SCHEMES={"systematic"}\nINVARIANTS FixedSlot\nCHECK_DEADLOCK FALSE\n')
    if r.invariant != "FixedSlot":
        raise tlc.MachineryError("PMCMCLawMC: FixedSlot was expected to fail\n%s" % r.out[-2000:])
    from fbs.samplers.smc import pmcmc_kernel
    from fbs.samplers import resampling as rs
    rng = np.random.default_rng(c.seed + 28)
    cfgs = []
    for s in SORTED + ("killing",):
        cfgs.append((s, 2, 2 if s in ("killing", "stratified") or c.thorough else 1))
        cfgs.append((s, 3, 1))
        if c.thorough:
            cfgs.append((s, 1, 2))
            if s == "killing":
                cfgs.append((s, 4, 1))
    cases = []
    for s, n, K in cfgs:
        for j in range(4 if c.thorough else 2):
            m = PModel(rng, K, 2 if K == 1 else 3, (1, 7) if n == 3 else (1, 3))
            cases.append((s, n, K, m, int(rng.integers(n)) if j else 0))
    laws, r = tlc.laws("PMCMCLawX", [dict(what="prop", m=m.json(), n=n, K=K, scheme=s, x=[]) for s, n, K, m, w in cases], timeout=3000)
    c.tlc(r, "PMCMCLawX")
    N = 1_000_000 if c.thorough else 120_000
    jits = {}

    def runner(s, n, K):
        import types
        ts = jnp.arange(K + 1) * 0.25

        def one(key, M, q, vs, u, z, i, which):
            tk = lambda t: finite.idx(4 * t)
            fwd = lambda key_, y: jnp.concatenate([vs[finite.draw(key_, q[None])[0]][::-1][:, None].astype(jnp.float32),
                                                   jnp.full((K + 1, 1), y[0])], axis=1)
            ref = lambda key_, v, nn: finite.col(finite.draw(key_, jnp.broadcast_to(M["r"][finite.idx(v)[0]], (nn, 2))))
            trs = lambda us, v, t, key_: finite.col(finite.draw(key_, M["T"][tk(t), finite.idx(v)[0], finite.st(us)]))
            lik = lambda v, us, vp, t: jnp.log(M["G"][tk(t), finite.idx(vp)[0], finite.st(us), finite.idx(v)[0]])
            uT, ell, ys, st = pmcmc_kernel(key, finite.col(u), jnp.log(z) - K * jnp.log(float(n)),
                                           jnp.concatenate([vs[i][::-1][:, None].astype(jnp.float32), jnp.full((K + 1, 1), -7.)], axis=1),
                                           vs[0, -1:].astype(jnp.float32), ts, fwd, types.SimpleNamespace(), ref, trs, lik, getattr(rs, s), n,
                                           which_u=which)
            return finite.st(uT), jnp.exp(ell) * float(n) ** K, ys, st.is_accepted
        return jax.jit(jax.vmap(one, in_axes=(0,) + (None,) * 7), static_argnums=())
    key = jax.random.PRNGKey(c.seed + 280)
    starts, runs = [], []
    for k, ((s, n, K, m, w), law) in enumerate(zip(cases, laws)):
        pos = sorted((o, p) for o, p in law.items())
        x = pos[int(np.argmax([float(p * (o[1] > min(q[1] for q, _ in pos))) for o, p in pos]))][0]    # a state that rejects sometimes
        starts.append(x)
    rows, r = tlc.laws("PMCMCLawX", [dict(what="kernel", m=m.json(), n=n, K=K, scheme=s, x=list(x))
                                     for (s, n, K, m, w), x in zip(cases, starts)], timeout=3000)
    c.tlc(r)
    for k, ((s, n, K, m, w), prop, row, x) in enumerate(zip(cases, laws, rows, starts)):
        jits.setdefault((s, n, K), runner(s, n, K))
        name = "pmcmc_kernel %s n=%d K=%d which_u=%d model %s" % (s, n, K, w, m.json())
        M = dict(r=jnp.asarray(m.r, jnp.float32), T=jnp.asarray(m.T, jnp.float32), G=jnp.asarray(m.G, jnp.float32))

        def run(kk, u, z, i):
            out, err = rec.observe(lambda: [np.asarray(a) for a in jits[s, n, K](
                jax.random.split(jax.random.fold_in(key, kk), N), M, jnp.asarray(m.q, jnp.float32), jnp.asarray(m.vs), jnp.asarray(u),
                jnp.asarray(z, jnp.float32), jnp.asarray(i), jnp.asarray(w))])
            if err:
                c.violation(name + ": " + err["clause"], err)
                return None
            u1, z1, ys, acc = out
            path = ys[:, ::-1, 0].astype(np.int64)
            code = path @ (2 ** np.arange(K + 1))
            known = {int(np.array(v) @ (2 ** np.arange(K + 1))): j for j, v in enumerate(m.vs)}
            pi = np.array([known.get(int(a), -1) for a in range(2 ** (K + 1))])[np.clip(code, 0, 2 ** (K + 1) - 1)]
            return np.stack([acc.astype(np.int64), u1, np.round(z1).astype(np.int64), pi], axis=1), z1
        a = run(2 * k, x[0] - 1, float(x[1]), x[2] - 1)
        b = run(2 * k + 1, 0, 0.0, 0)
        if a is None or b is None:
            continue
        L = {(int(o[0]), o[1][0] - 1, o[1][1], o[1][2] - 1): p for o, p in row.items()}
        arr = a[0]
        ok, msg = lawtest.compare(lawtest.outcome_counts(arr), L, N)
        c.count("law_cases")
        c.count("law_draws", 2 * N)
        c.sample(dict(case=name, result=msg), limit=6)
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))
            continue
        for j in range(len(m.vs)):
            al = m.alpha(K, j)
            for u in range(2):
                exact = float(Fraction(m.q[j], sum(m.q)) * al[u])
                est = b[1].astype(np.float64) / n ** K * ((b[0][:, 1] == u) & (b[0][:, 3] == j))
                ok, msg = lawtest.mean_test(est, exact)
                if not ok:
                    c.violation("%s: weighted terminal particle is biased on path %s state %d: %s" % (name, m.vs[j], u, msg), dict(case=name))
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9, means by z > 6.5")


report.main("C28", body)
