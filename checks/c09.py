import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, pmcmcrec, lawtest, tracecheck as tc


def canaries(t):
    out = []

    def add(what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    add("path not carried", lambda e: e["e"] == "ret", lambda e: e.update(ys=e["ys"][:-1] + [77]))
    add("particle leaked", lambda e: e["e"] == "ret", lambda e: e.update(uT=77))
    add("evidence leaked", lambda e: e["e"] == "ret", lambda e: e.update(ell=e["ell"] + 1024))
    add("probability", lambda e: e["e"] == "ret", lambda e: e.update(prob=e["prob"] // 2))
    add("ref at the wrong end", lambda e: e["e"] == "ref", lambda e: e.update(v=t["c"]["y0"]))
    return out


def accept_law(c):
    """A proposal whose log likelihood differs by a known number of bits is accepted with the exact frequency."""
    from fbs.samplers.smc import pmcmc_kernel
    N = 1_000_000 if c.thorough else 200_000
    K, n, L2 = 2, 2, np.log(2.0)
    ts = jnp.arange(K + 1.)
    cases = [(-1, 0), (-2, 0), (0, 0), (3, 1), (-6, -3), (1, 5)] + ([(-2, 3), (4, 6)] if c.thorough else [])
    laws, r = tlc.laws("AcceptX", [dict(new=a, old=b) for a, b in cases])
    c.tlc(r, "AcceptX")

    def one(key, new, old):
        *_, ms = pmcmc_kernel(key, jnp.zeros(1), old * L2, jnp.zeros((K + 1, 1)), jnp.zeros(1), ts,
                              lambda k, y: jnp.ones((K + 1, 1)), None, lambda k, v, m: jnp.zeros((m, 1)),
                              lambda us, v, t, k: us, lambda v, us, vp, t: jnp.full((n,), new * L2 / K),
                              lambda w, k: jnp.arange(n), n)
        return ms.is_accepted
    f = jax.jit(jax.vmap(one, in_axes=(0, None, None)))
    for k, ((a, b), law) in enumerate(zip(cases, laws)):
        name = "acceptance with log2 likelihoods %d (new) %d (old)" % (a, b)
        x, err = rec.observe(lambda: np.asarray(f(jax.random.split(jax.random.PRNGKey(c.seed * 31 + k), N), float(a), float(b))))
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(x.astype(int)), {(o,): p for o, p in law.items()}, N)
        c.count("law_cases")
        c.sample(dict(case=name, result=msg), limit=6)
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))


def body(c):
    for n, K, st, p in ([(2, 1, 3, "FALSE"), (2, 1, 3, "TRUE"), (3, 2, 2, "FALSE")] if not c.thorough
                        else [(2, 2, 3, "FALSE"), (2, 1, 4, "TRUE"), (3, 2, 3, "FALSE"), (3, 3, 2, "TRUE")]):
        r = tlc.check("PMCMCMC", "SPECIFICATION Spec\nCONSTANTS N=%d K=%d STEPS=%d PCN=%s\nINVARIANTS Together NoStuck\nPROPERTY Climb\n"
                                 "CHECK_DEADLOCK FALSE\n" % (n, K, st, p), workers=8, timeout=3000)
        c.tlc(r, "PMCMCMC N=%d K=%d STEPS=%d PCN=%s" % (n, K, st, p))
    rng = np.random.default_rng(c.seed * 7919 + 9)
    configs = [(3, 3, (1,), (1,)), (1, 2, (2,), ()), (4, 2, (2, 3), (2, 2)), (2, 5, (), (1,))]
    if c.thorough:
        configs += [(int(rng.integers(1, 9)), int(rng.integers(1, 7)), [(1,), (2,), (2, 3), ()][int(rng.integers(4))],
                     [(1,), (2,), ()][int(rng.integers(3))]) for _ in range(20)]
    traces = []
    for j, (n, K, shape, vshape) in enumerate(configs):
        for i in range(6):
            traces.append(pmcmcrec.chain(rng, int(rng.integers(2 ** 30)), n, K, shape, vshape, use_kw=i % 3 != 2,
                                         steps=12 if c.thorough else 8, which=int(rng.integers(n)) if i % 2 else 0, small=i != 3,
                                         jit=i == 4 and j == 0))
    for i, delta in enumerate([9 / 8, 0.5, 2.0, 0.25, 32 / 9][: None if c.thorough else 3]):
        for K, vs in [(4, (6,)), (3, (3, 3))]:
            traces.append(pmcmcrec.chain(rng, int(rng.integers(2 ** 30)), 3, K, (2,), vs, use_kw=i % 2 == 0, steps=6, which=i % 3,
                                         delta=round(delta * 64) / 64))
    can = canaries(next(t for t in traces if any(e["e"] == "ret" and e["acc"] for e in t["ev"])))
    x = tc.corrupt(traces[-1], lambda e: e["e"] == "pcn", lambda e: e.update(a=e["a"] + 100))
    can.append(("pcn coefficient", x))
    acc = [e["acc"] for t in traces for e in t["ev"] if e["e"] == "ret"]
    c.cov["accepted_steps"], c.cov["rejected_steps"] = int(sum(acc)), int(len(acc) - sum(acc))
    tc.validate(c, "PMCMCTrace", traces, can)
    accept_law(c)


report.main("C09", body)
