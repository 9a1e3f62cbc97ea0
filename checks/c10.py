import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, pf, finite, resamp, lawtest, tracecheck as tc
import c01lib


def law_part(c):
    from fbs.samplers.smc import bootstrap_filter, pmcmc_filter_step
    from fbs.samplers import resampling as rs
    rng = np.random.default_rng(c.seed + 10)
    schemes = dict(systematic=rs.systematic, stratified=rs.stratified, multinomial=rs.multinomial, killing=rs.killing)
    cfgs = [(2, 2), (3, 1), (1, 2), (2, 1)] if not c.thorough else [(2, 2), (3, 1), (1, 2), (2, 1), (4, 1), (2, 3), (1, 4)]
    cases = []
    for fn in ("pmcmc_filter_step", "bootstrap_filter"):
        for si, s in enumerate(schemes):
            for ci, (n, K) in enumerate(cfgs):
                if not c.thorough and ci >= 2 and (ci + si) % 2 != (fn == "bootstrap_filter"):
                    continue
                for _ in range(4 if c.thorough else 2):
                    cases.append((fn, s, n, K, finite.Model(rng, 2, K)))
    laws, r = tlc.laws("ParticleLawX", [dict(m=m.json(), n=n, K=K, scheme=s,
                                             order="sel-first" if fn == "pmcmc_filter_step" else "prop-first")
                                        for fn, s, n, K, m in cases], timeout=3000)
    c.tlc(r, "ParticleLawX")
    N = 400_000 if c.thorough else 60_000
    jits = {}

    def runner(fn, s, n, K):
        vs, ts = finite.col(np.arange(K + 1)), jnp.arange(K + 1) * 0.5

        def one(key, M):
            ini, tr, _, ll = finite.callbacks(M)
            if fn == "pmcmc_filter_step":
                k0, k1 = jax.random.split(key)
                us, ell = pmcmc_filter_step(k1, vs, ini(k0, vs[0], n), ts, tr, ll, schemes[s], n)
            else:
                us, nell = bootstrap_filter(tr, ll, vs, ts, ini, key, n, schemes[s], log=True, return_last=True)
                ell = -nell
            return finite.st(us), ell
        return jax.jit(jax.vmap(one, in_axes=(0, None)))
    key = jax.random.PRNGKey(c.seed + 100)
    for k, ((fn, s, n, K, m), law) in enumerate(zip(cases, laws)):
        cfg = (fn, s, n, K)
        name = "%s with %s, n=%d, K=%d, model %s" % (fn, s, n, K, m.json())
        if cfg not in jits:
            jits[cfg] = runner(*cfg)
        ks = jax.random.split(jax.random.fold_in(key, k), N)
        out, err = rec.observe(lambda: [np.asarray(x) for x in jits[cfg](ks, m.arrays())])
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        us, ell = out
        z = np.exp(ell.astype(np.float64)) * n ** K
        evidence = sum(p * o[1] for o, p in law.items()) / n ** K
        if not np.all(np.abs(z - np.round(z)) < 1e-2):
            c.violation("%s: exp(log likelihood) n^K is not a product of integer weight sums: %s" % (name, z[np.abs(z - np.round(z)) >= 1e-2][:3]),
                        dict(case=name, values=z[:20].tolist()))
            continue
        ok, msg = lawtest.mean_test(np.exp(ell.astype(np.float64)), float(evidence))
        if not ok:
            c.violation("%s: likelihood estimate is biased: %s" % (name, msg), dict(case=name))
            continue
        multi = s == "multinomial"
        rows = np.concatenate([np.sort(us, axis=1) if multi else us, np.round(z).astype(np.int64)[:, None]], axis=1)
        L = {}
        for o, p in law.items():
            kk = tuple(a - 1 for a in o[0])
            kk = (tuple(sorted(kk)) if multi else kk) + (o[1],)
            L[kk] = L.get(kk, 0) + p
        ok, msg2 = lawtest.compare(lawtest.outcome_counts(rows), L, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, evidence=str(evidence), estimate=msg, law=msg2), limit=5)
        if not ok:
            c.violation("law of %s: %s" % (name, msg2), dict(case=name))


def body(c):
    for order in ("sel-first",):
        r = tlc.check("PFMC", "SPECIFICATION Spec\nCONSTANTS N=2 K=%d ORDER=\"%s\"\n"
                              "INVARIANTS Genealogy Count Evidence Finishes NoStuck\nCHECK_DEADLOCK FALSE\n"
                      % (3 if c.thorough else 2, order), workers=4)
        c.tlc(r, "PFMC " + order)
    for n, K, fast in ([(2, 1, False), (2, 2, False), (3, 1, False), (2, 3, True)] if c.thorough else [(2, 1, False), (2, 2, True)]):
        r = tlc.check("ParticleLawMC", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d FAST=%s\nINVARIANT Unbiased1\n"
                      % (n, K, str(fast).upper()), workers=8, timeout=3000)
        c.tlc(r, "ParticleLawMC N=%d K=%d" % (n, K))
    rng = np.random.default_rng(c.seed * 104729 + 10)
    traces = []
    configs = [(4, 3, (1,), (1,)), (1, 2, (2,), ()), (3, 4, (), (1,)), (5, 1, (2, 3), (2, 2)), (16, 2, (2,), (2,)), (3, 12, (1,), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 12)), int(rng.integers(1, 9)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(40)]
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(16 if c.thorough else 8):
            traces.append(pf.pmcmc_filter_trace(rng, int(rng.integers(2 ** 31)), n, K, shape, vshape, use_kw=i % 3 != 2,
                                                jit=i == 4 and j == 0))
    tc.validate(c, "PFTrace", traces, c01lib.canaries(traces[0]))
    law_part(c)
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9, means by z > 6.5")


report.main("C10", body)
