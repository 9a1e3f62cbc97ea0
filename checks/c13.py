import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, finite, lawtest, gibbsrec as g, tracecheck as tc


def canaries(ts, ti):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    t = ts[0]
    add(t, "candidates", lambda e: e["e"] == "td", lambda e: e.update(us=e["us"][1:] + [99]))
    add(t, "time", lambda e: e["e"] == "td", lambda e: e.update(t=e["t"] + 1))
    add(t, "path order", lambda e: e["e"] == "ret", lambda e: e.update(us=e["us"][::-1]))
    for t in ti[:4]:
        add(t, "returned state", lambda e: e["e"] == "iret" and e["x"] > 0, lambda e: e.update(x=10 ** 6))
        add(t, "path reversed", lambda e: e["e"] == "iret" and len(e["us"]) > 1, lambda e: e.update(us=e["us"][::-1]))
    return out


def law_part(c):
    from fbs.samplers.smc import bootstrap_backward_smoother
    rng = np.random.default_rng(c.seed + 13)
    cases = []
    for n, K, nu in [(2, 2, 2), (3, 2, 3), (4, 1, 2)] + ([(3, 3, 2), (5, 2, 3)] if c.thorough else []):
        for _ in range(8 if c.thorough else 3):
            F = [[int(x) for x in rng.integers(0, nu, n)] for _ in range(K + 1)]
            d = [[[int(x) for x in rng.choice([0, 1, 2, 3, 5], nu)] for _ in range(nu)] for _ in range(K)]
            for k in range(K):
                for x in range(nu):     # every state reachable from some particle of the time before
                    if not any(d[k][u][x] for u in F[k]):
                        d[k][F[k][0]][x] = 1
            cases.append((n, K, nu, F, d))
    laws, r = tlc.laws("SmootherLawX", [dict(F=[[x + 1 for x in row] for row in F], P=d, K=K) for n, K, nu, F, d in cases])
    c.tlc(r, "SmootherLawX")
    N = 400_000 if c.thorough else 60_000
    jits = {}

    def runner(K):
        ts = jnp.arange(K + 1) * 0.5
        vs = finite.col(np.arange(K + 1))

        def one(key, F, d):
            def td(x, us, v, t):
                k = finite.idx(v)[0]
                return jnp.where(finite.idx(2 * t) == k, 0., us[:, 0]) + jnp.log(d[k][finite.st(us), finite.st(x)])
            return finite.st(bootstrap_backward_smoother(key, F, vs, ts, td))
        return jax.jit(jax.vmap(one, in_axes=(0, None, None)))
    key = jax.random.PRNGKey(c.seed + 130)
    for k, ((n, K, nu, F, d), law) in enumerate(zip(cases, laws)):
        if (n, K, nu) not in jits:
            jits[n, K, nu] = runner(K)
        name = "bootstrap_backward_smoother particles %s densities %s" % (F, d)
        x, err = rec.observe(lambda: np.asarray(jits[n, K, nu](jax.random.split(jax.random.fold_in(key, k), N), finite.col(np.array(F)),
                                                               jnp.asarray(d, jnp.float32))))
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(x), {tuple(a - 1 for a in o): p for o, p in law.items()}, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, result=msg), limit=6)
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))


def init_law(c):
    """The state returned with method='filter' is a fair draw from the final particles."""
    from fbs.samplers.gibbs import gibbs_init
    rng = np.random.default_rng(c.seed + 131)
    cases = []
    for n, K in [(2, 1), (3, 1), (2, 2), (4, 1)]:
        # the exact rationals of larger systems do not fit TLC's integers
        for dens in ((1, 3), (5, 1)) if n == 4 else ((1, 6), (5, 1), (2, 3), (1, 9)) if c.thorough else ((1, 6), (5, 1)):
            row = lambda: [(1, 4), (4, 1), (2, 3)][int(rng.integers(3))]
            m = dict(nu=2, p0=[1, 1], P=[[[4, 1], [1, 4]] if k == 0 else [list(row()), list(row())] for k in range(K)],
                     g=[list(dens[::-1] if k % 2 else dens) for k in range(K)])
            cases.append((n, K, m))
    laws, r = tlc.laws("InitLawX", [dict(m=m, n=n, K=K) for n, K, m in cases])
    c.tlc(r, "InitLawX")
    N = 400_000 if c.thorough else 100_000
    jits = {}

    def runner(n, K):
        ts = jnp.arange(K + 1) * 0.5
        path = jnp.stack([jnp.zeros(K + 1), jnp.arange(K, -1, -1.)], axis=1)

        def one(key, P, g):
            stt = lambda us, k: jnp.where(k == 0, (us[:, 0] > 0) * 1, finite.st(us))
            trs = lambda us, v, t, kk: finite.col(finite.draw(kk, P[finite.idx(2 * t), stt(us, finite.idx(2 * t))]))
            lik = lambda v, us, vp, t: jnp.log(g[finite.idx(vp)[0], stt(us, finite.idx(2 * t))])
            x, _ = gibbs_init(key, jnp.zeros(1), (1,), ts, lambda kk, x, y: path, g_sde, lambda p: (p[:, :1], p[:, 1:]), trs,
                              lambda u, us, v, t: us[:, 0] * 0, lik, n, method="filter", marg_y=False)
            return finite.st(x)
        return jax.jit(jax.vmap(one, in_axes=(0, None, None)))
    g_sde = g.StubSDE()
    key = jax.random.PRNGKey(c.seed + 132)
    for k, ((n, K, m), law) in enumerate(zip(cases, laws)):
        jits.setdefault((n, K), runner(n, K))
        name = "gibbs_init(method='filter') n=%d K=%d model %s" % (n, K, m)
        x, err = rec.observe(lambda: np.asarray(jits[n, K](jax.random.split(jax.random.fold_in(key, k), N), jnp.asarray(m["P"], jnp.float32),
                                                           jnp.asarray(m["g"], jnp.float32))))
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(x), {(o[0] - 1,): p for o, p in law.items()}, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, result=msg), limit=8)
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))


def body(c):
    for n, k, meth in [(2, 2, "smoother"), (2, 2, "filter"), (2, 1, "debug")] if not c.thorough else \
            [(2, 2, "smoother"), (3, 1, "smoother"), (2, 3, "filter"), (3, 1, "filter"), (2, 2, "debug")]:
        r = tlc.check("GibbsMC", 'SPECIFICATION Spec\nCONSTANTS N=%d K=%d STEPS=1 MODE="init" METHOD="%s" WMAX=1\n'
                                 'INVARIANTS RefKept Ends Returned NoStuck\nCHECK_DEADLOCK FALSE\n' % (n, k, meth), workers=8, timeout=3000, xmx="12g")
        c.tlc(r, "GibbsMC init %s N=%d K=%d" % (meth, n, k))
    rng = np.random.default_rng(c.seed * 7919 + 13)
    configs = [(3, 3, (2,), (1,)), (5, 1, (2, 2), (2,)), (2, 6, (), ()), (1, 2, (1,), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 9)), int(rng.integers(1, 8)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(25)]
    ts, ti = [], []
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(8):
            ts.append(g.smoother_trace(rng, int(rng.integers(2 ** 30)), n, K, shape, vshape, use_kw=i % 3 != 2, jit=i == 4 and j == 0))
    for j, (n, K, shape, vshape) in enumerate(configs[:2] + configs[4:]):
        for i in range(12 if c.thorough else 6):
            ti.append(g.init_trace(rng, int(rng.integers(2 ** 30)), n, K, shape, vshape, ["smoother", "filter", "debug"][i % 3],
                                   marg=(i // 3 + i) % 2 == 0, x0none=i % 4 < 2, use_kw=i % 5 != 2, jit=i == 3 and j == 0))
    tc.validate(c, "SmootherTrace", ts, canaries(ts, [])[:3])
    tc.validate(c, "GibbsTrace", ti, canaries(ts, ti)[3:])
    if not c.violations:
        ok, msg = g.reference_ok(g.reference_draws("init", c.seed + 13))
        c.count("reference_draws", 12000)
        c.sample(dict(case="gibbs_init reference particles", result=msg))
        if not ok:
            c.violation("gibbs_init: initial particles are not independent standard normals: " + msg, dict(msg=msg))
    law_part(c)
    init_law(c)
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9")


report.main("C13", body)
