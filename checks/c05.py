import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, csmcrec, finite, lawtest, tracecheck as tc


def canaries(ts):
    out = []
    t = next(t for t in ts if t["c"]["mode"] == "scan")

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))

    def other(e):
        e["us"][0] = e["us"][0] + 1
    add(t, "state not at index", lambda e: e["e"] == "ret", other)
    add(t, "index out of range", lambda e: e["e"] == "ret", lambda e: e["bs"].__setitem__(-1, 99))
    t = next(t for t in ts if t["c"]["mode"] == "backward")
    add(t, "backward v", lambda e: e["e"] == "td", lambda e: e.update(v=e["v"] + 1))
    add(t, "backward candidates", lambda e: e["e"] == "td", lambda e: e.update(us=e["us"][1:] + e["us"][:1]))
    return out


def law_part(c):
    from fbs.samplers.csmc.csmc import csmc_kernel
    from fbs.samplers.csmc import resamplings as rs
    rng = np.random.default_rng(c.seed + 5)
    cfgs = [(2, 1), (2, 2), (3, 1)]
    cases = []
    for n, K in cfgs:
        for scheme in ("killing", "multinomial"):
            for mode in ("scan", "backward"):
                for _ in range(8 if c.thorough else 2):
                    dens = (1, 3) if n == 2 else (1, 2)
                    m = finite.Model(rng, 2, K, dens=dens)
                    w0 = [int(x) for x in rng.permutation(dens)]
                    star = [int(x) for x in rng.integers(0, 2, K + 1)]
                    bs = [int(x) for x in rng.integers(0, n, K + 1)]
                    cases.append((n, K, scheme, mode, m, w0, star, bs))
    laws, r = tlc.laws("CSMCLawX", [dict(m=dict(m.json(), w0=w0), n=n, K=K, scheme=s, mode=mode,
                                         star=[x + 1 for x in star], bs=[b + 1 for b in bs])
                                    for n, K, s, mode, m, w0, star, bs in cases], timeout=3000)
    c.tlc(r, "CSMCLawX")
    N = 500_000 if c.thorough else 100_000
    jits = {}

    def runner(n, K, s, mode):
        vs, ts = finite.col(np.arange(K + 1)), jnp.arange(K + 1) * 0.5

        def one(key, M, w0, star, bs):
            ini, tr, _, ll = finite.callbacks(M)
            il = lambda v0, us, v1: jnp.log(w0[finite.st(us)]) + jnp.where(finite.idx(v0)[0] == 0, 0., us[:, 0]) \
                + jnp.where(finite.idx(v1)[0] == 1, 0., us[:, 0])
            td = lambda x, us, v, t: jnp.log(M["P"][finite.idx(v)[0], finite.st(us), finite.st(x)])
            us, b = csmc_kernel(key, star, bs, vs, ts, lambda k, nn: ini(k, None, nn), il, tr, td, ll,
                                getattr(rs, s), n - 1, mode == "backward")
            return jnp.concatenate([finite.st(us), b])
        return jax.jit(jax.vmap(one, in_axes=(0, None, None, None, None)))
    key = jax.random.PRNGKey(c.seed + 55)
    for k, ((n, K, s, mode, m, w0, star, bs), law) in enumerate(zip(cases, laws)):
        cfg = (n, K, s, mode)
        name = "csmc_kernel %s %s n=%d K=%d star=%s bs=%s w0=%s model %s" % (s, mode, n, K, star, bs, w0, m.json())
        if cfg not in jits:
            jits[cfg] = runner(*cfg)
        ks = jax.random.split(jax.random.fold_in(key, k), N)
        x, err = rec.observe(lambda: np.asarray(jits[cfg](ks, m.arrays(), jnp.asarray(w0, jnp.float32), finite.col(star),
                                                          jnp.asarray(bs, jnp.int32))))
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        L = {}
        for o, p in law.items():
            kk = tuple(a - 1 for a in o[0]) + tuple(b - 1 for b in o[1])
            L[kk] = L.get(kk, 0) + p
        ok, msg = lawtest.compare(lawtest.outcome_counts(x), L, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, result=msg), limit=6)
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))


def body(c):
    for n, K, m, w in ([(2, 2, "scan", 1), (2, 2, "backward", 1)] if not c.thorough
                       else [(2, 3, "scan", 1), (3, 2, "scan", 1), (2, 2, "backward", 2), (2, 3, "backward", 1)]):
        r = tlc.check("CSMCMC", 'SPECIFICATION Spec\nCONSTANTS N=%d K=%d MODE="%s" WMAX=%d\nINVARIANTS RefKept Genealogy Counts NoStuck\n'
                                'CHECK_DEADLOCK FALSE\n' % (n, K, m, w), workers=8, timeout=3000, xmx="12g")
        c.tlc(r, "CSMCMC N=%d K=%d %s" % (n, K, m))
    for n, K, fast in ([(2, 1, False)] if not c.thorough else [(2, 1, False), (2, 2, True)]):
        r = tlc.check("CSMCLawMC", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d FAST=%s\nINVARIANT Invariant\nCHECK_DEADLOCK FALSE\n"
                      % (n, K, str(fast).upper()), workers=8, timeout=3000)
        c.tlc(r, "CSMCLawMC N=%d K=%d: smoothing law invariant" % (n, K))
    rng = np.random.default_rng(c.seed * 7919 + 5)
    configs = [(3, 3, (1,), (1,)), (1, 2, (2,), ()), (5, 1, (2, 3), (2, 2)), (2, 7, (), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 10)), int(rng.integers(1, 9)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(30)]
    traces = []
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(16 if c.thorough else 8):
            traces.append(csmcrec.trace(rng, int(rng.integers(2 ** 31)), n, K, shape, vshape, ["scan", "backward"][i % 2],
                                        use_kw=i % 3 != 2, jit=i == 4 and j == 0))
    tc.validate(c, "CSMCTrace", traces, canaries(traces))
    law_part(c)
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9")


report.main("C05", body)
