import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, resamp, lawtest, tracecheck as tc

CASES = [[1, 3], [3, 1], [1, 1], [0, 4], [4, 0], [1, 2, 5], [5, 1, 2], [2, 5, 1], [0, 3, 5], [3, 0, 5], [3, 5, 0], [2, 2, 2],
         [0, 0, 8], [1, 7, 0], [6, 1, 1], [4, 4, 8], [1, 2, 3, 2], [3, 3, 1, 1], [0, 1, 0, 7], [5, 1, 1, 1], [2, 0, 5, 1], [1]]
LONG = [5, 8, 16, 31, 64]


def mc(c):
    r = tlc.check("ResamplingMC", "SPECIFICATION Spec\nCONSTANTS NMax=%d SMax=%d\nINVARIANTS LawOK CondOK\n"
                  % ((3, 5) if not c.thorough else (4, 6)), workers=8, timeout=3000)
    c.tlc(r, "ResamplingMC")


def long_vectors(rng, m):
    for _ in range(m):
        n = int(rng.choice(LONG))
        S = 1 << int(rng.integers(6, 12))
        kind = rng.integers(4)
        if kind == 0 and 64 % n == 0:
            w = np.full(n, S // n)
        elif kind == 1:
            w = rng.multinomial(S, rng.dirichlet(np.full(n, 0.1)))
        elif kind == 2:
            w = rng.multinomial(S, rng.dirichlet(np.full(n, 1.0)))
        else:
            w = np.zeros(n, int)
            for _ in range(3):
                w[rng.integers(n)] += S // 4
            w[rng.integers(n)] += S - int(w.sum())
        if w.sum() == S:
            yield w, S


def body(c):
    mc(c)
    fns = resamp.schemes()
    cases = [(pkg, s, w) for (pkg, s) in fns for w in CASES]
    laws, r = tlc.laws("ResamplingLaw", [dict(cond=False, scheme=s, w=w) for _, s, w in cases])
    c.tlc(r, "ResamplingLaw")
    N = 1_000_000 if c.thorough else 120_000
    key = jax.random.PRNGKey(c.seed)
    jitted = {k: jax.jit(jax.vmap(f, in_axes=(None, 0))) for k, f in fns.items()}
    for idx, ((pkg, s, w), law) in enumerate(zip(cases, laws)):
        wf = jnp.asarray(np.array(w, np.float64) / sum(w), jnp.float32)
        ks = jax.random.split(jax.random.fold_in(key, idx), N)
        x, err = rec.observe(lambda: np.asarray(jitted[pkg, s](wf, ks)))
        name = "%s/%s weights %s" % (pkg, s, w)
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        if x.shape != (N, len(w)):
            c.violation(name + ": shape %s" % (x.shape,), dict(shape=list(x.shape)))
            continue
        law = {tuple(a - 1 for a in o): p for o, p in law.items()}
        if s == "multinomial":      # i.i.d. up to order: compare multisets
            x = np.sort(x, axis=1)
            m = {}
            for o, p in law.items():
                k = tuple(sorted(o))
                m[k] = m.get(k, 0) + p
            law = m
        ok, msg = lawtest.compare(lawtest.outcome_counts(x), law, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, law={str(k): str(v) for k, v in law.items()}, result=msg))
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name, law={str(k): str(v) for k, v in law.items()},
                        observed={str(k): v for k, v in lawtest.outcome_counts(x).items()}))
    # larger vectors: each execution is one the scheme allows
    rng = np.random.default_rng(c.seed + 17)
    traces, m = [], 64
    vecs = list(long_vectors(rng, 120 if c.thorough else 24))
    for (pkg, s) in fns:
        for w, S in vecs:
            t = dict(c=dict(scheme=s, w=[int(a) for a in w], cw=[0] + [int(a) for a in np.cumsum(w)], i=0, j=0), ev=[],
                     info=dict(fn=pkg + "/" + s))
            ks = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), m)
            x, err = rec.observe(lambda: np.asarray(jitted[pkg, s](jnp.asarray(w / S, jnp.float32), ks)))
            t["ev"] = [err] if err else [dict(e="draw", x=[int(a) for a in row]) for row in np.unique(x, axis=0)]
            traces.append(t)
    can = []
    t = next(t for t in traces if t["c"]["scheme"] == "systematic" and len(set(t["c"]["w"])) > 2)
    can.append(("index out of range", tc.corrupt(t, lambda e: True, lambda e: e["x"].__setitem__(0, len(e["x"])))))
    can.append(("all copies of one", tc.corrupt(t, lambda e: True, lambda e: e.update(x=[int(np.argmax(t["c"]["w"]))] * len(e["x"])))))
    tc.validate(c, "ResampTrace", traces, can)
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9")


report.main("C02", body)
