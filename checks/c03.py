import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, resamp, lawtest, tracecheck as tc

VECS = [[1, 3], [3, 1], [1, 1], [4, 0], [1, 2, 5], [5, 1, 2], [0, 3, 5], [3, 5, 0], [2, 2, 2], [6, 1, 1], [4, 4, 8], [0, 0, 8]]
VECS4 = [[1, 2, 3, 2], [3, 3, 1, 1], [0, 1, 0, 7], [2, 0, 5, 1], [1, 1, 1, 1]]


def body(c):
    r = tlc.check("ResamplingMC", "SPECIFICATION Spec\nCONSTANTS NMax=%d SMax=%d\nINVARIANTS LawOK CondOK\n"
                  % ((3, 4) if not c.thorough else (4, 6)), workers=8, timeout=3000)
    c.tlc(r, "ResamplingMC")
    rng = np.random.default_rng(c.seed + 3)
    cases = []
    for s in ("multinomial", "killing"):
        for w in VECS + VECS4:
            pairs = [(i, j) for i in range(len(w)) if w[i] > 0 for j in range(len(w))]
            if not c.thorough and len(w) > 2:
                # always one pair with i != j and the pinned slot first, last, inside
                pick = rng.permutation(len(pairs))[:4 if len(w) == 3 else 3]
                pairs = [pairs[k] for k in pick]
            cases += [(s, w, i, j) for i, j in pairs]
    laws, r = tlc.laws("ResamplingLaw", [dict(cond=True, scheme=s, w=w, i=i + 1, j=j + 1) for s, w, i, j in cases])
    c.tlc(r, "ResamplingLaw")
    N = 1_000_000 if c.thorough else 100_000
    key = jax.random.PRNGKey(c.seed)
    fns = {s: jax.jit(jax.vmap(resamp.cond(s), in_axes=(None, 0, None, None))) for s in ("multinomial", "killing")}
    for idx, ((s, w, i, j), law) in enumerate(zip(cases, laws)):
        wf = jnp.asarray(np.array(w, np.float64) / sum(w), jnp.float32)
        ks = jax.random.split(jax.random.fold_in(key, idx), N)
        x, err = rec.observe(lambda: np.asarray(fns[s](wf, ks, i, j)))
        name = "csmc/%s weights %s, ancestor %d at slot %d" % (s, w, i, j)
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        if x.shape != (N, len(w)):
            c.violation(name + ": shape %s" % (x.shape,), dict(shape=list(x.shape)))
            continue
        if not np.all(x[:, j] == i):
            c.violation(name + ": slot %d is not pinned" % j, dict(case=name, rows=x[x[:, j] != i][:5].tolist()))
            continue
        law = {tuple(a - 1 for a in o): p for o, p in law.items()}
        counts = lawtest.outcome_counts(x)
        ok, msg = lawtest.compare(counts, law, N)
        c.count("law_cases")
        c.count("law_draws", N)
        c.sample(dict(case=name, law={str(k): str(v) for k, v in law.items()}, result=msg))
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name, law={str(k): str(v) for k, v in law.items()},
                        observed={str(k): v for k, v in counts.items()}))
    # larger vectors, pinned slots anywhere
    traces, m = [], 48
    for s in fns:
        for n in (1, 5, 16, 33):
            for _ in range(20 if c.thorough else 6):
                S = 1 << int(rng.integers(6, 11))
                w = rng.multinomial(S, rng.dirichlet(np.full(n, rng.choice([0.1, 1.0]))))
                i, j = int(rng.choice(np.flatnonzero(w))), int(rng.integers(n))
                t = dict(c=dict(scheme=s, w=[int(a) for a in w], cw=[0] + [int(a) for a in np.cumsum(w)], i=i + 1, j=j + 1),
                         info=dict(fn="csmc/" + s, i=i, j=j))
                ks = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 31))), m)
                x, err = rec.observe(lambda: np.asarray(fns[s](jnp.asarray(w / S, jnp.float32), ks, i, j)))
                t["ev"] = [err] if err else [dict(e="draw", x=[int(a) for a in row]) for row in np.unique(x, axis=0)]
                traces.append(t)
    t = next(t for t in traces if len(t["c"]["w"]) > 4)
    j = t["c"]["j"] - 1
    can = [("pinned slot moved", tc.corrupt(t, lambda e: True, lambda e: e["x"].__setitem__(j, (e["x"][j] + 1) % len(e["x"])))),
           ("index out of range", tc.corrupt(t, lambda e: True, lambda e: e["x"].__setitem__((j + 1) % 5, -1)))]
    tc.validate(c, "ResampTrace", traces, can)
    c.assume("laws are compared by chi-square tests rejecting below p = 1e-9")


report.main("C03", body)
