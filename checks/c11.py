import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, pmcmcrec, tracecheck as tc


def one(rng, seed, delta, shape, jit):
    from fbs.samplers.smc import pcn_proposal
    x = (rng.normal(size=shape) * 4).astype(np.float32)
    m = (rng.normal(size=shape) * 2 + 1).astype(np.float32)
    draws = []

    def sampler(key):
        def f(k):
            r = np.random.default_rng([int(z) for z in np.asarray(k).ravel()]).normal(size=shape) * 1.5 + m
            draws.append(r.astype(np.float32))
            return draws[-1]
        return rec.call(f, rec.f32(shape), key)

    def go():
        f = lambda k: pcn_proposal(k, delta, jnp.asarray(x), jnp.asarray(m), sampler)
        if jit:
            return np.asarray(jax.jit(f)(jax.random.PRNGKey(seed)))
        with jax.disable_jit():
            return np.asarray(f(jax.random.PRNGKey(seed)))
    p, err = rec.observe(go)
    num, den = float(delta).as_integer_ratio()
    if err:
        ev = [err]
    elif p.shape != tuple(shape):
        ev = [dict(e="raised", clause="the proposal has the shape of the state")]
    else:
        ev = [pmcmcrec.regress(p, x, m, draws, (num, den), e="pcn")]
    return dict(c=dict(), ev=ev, info=dict(fn="pcn_proposal", delta=delta, shape=list(shape), seed=seed, jit=jit))


def body(c):
    r = tlc.check("PCNMCRun", "SPECIFICATION Spec\nCONSTANT Triples <- Trip\nINVARIANTS RhoOK NoiseOK Keeps\n")
    c.tlc(r, "PCNMC")
    rng = np.random.default_rng(c.seed + 11)
    traces = []
    deltas = [2 ** -10, 1 / 8, 0.5, 1.0, 9 / 8, 2.0, 32 / 9, 7.25, 16.0, 100.0]
    if c.thorough:
        deltas += [float(x) for x in np.round(rng.exponential(2, 60) * 256 + 1) / 256]
    for i, d in enumerate(deltas):
        d = round(d * 1024) / 1024
        for j, shape in enumerate([(40,), (6, 9), (3, 4, 5)]):
            traces.append(one(rng, int(rng.integers(2 ** 30)), d, shape, jit=(i + j) % 5 == 0))
    kern = []
    for i in range(30 if c.thorough else 6):      # the proposal inside the kernel
        t = pmcmcrec.chain(rng, int(rng.integers(2 ** 30)), 2, int(rng.integers(3, 5)), (1,), [(16,), (4, 4)][i % 2], use_kw=False, steps=2, which=0,
                           delta=float(rng.choice([0.5, 1.0, 2.0, 7.25])), jit=i % 3 == 2)
        ev = [e for e in t["ev"] if e["e"] in ("pcn", "raised")]
        kern += [dict(c=dict(), ev=[e], info=t["info"]) for e in ev]
    traces += kern
    t = traces[20]
    can = [("coefficient of the state", tc.corrupt(t, lambda e: True, lambda e: e.update(a=e["a"] + 60, b=e["b"] - 60))),
           ("noise", tc.corrupt(t, lambda e: True, lambda e: e.update(cs=[e["cs"][0] + 200] + e["cs"][1:], b=e["b"] - 200))),
           ("mean", tc.corrupt(t, lambda e: True, lambda e: e.update(b=e["b"] + 60)))]
    can.append(("centre", tc.corrupt(kern[0], lambda e: e["e"] == "pcn", lambda e: e.update(mean=False))))
    tc.validate(c, "PCNTrace", traces, can)
    c.assume("independence of the sampler's draws is checked as distinctness of their keys")


report.main("C11", body)
