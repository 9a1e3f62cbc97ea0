import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, lawtest


def body(c):
    from fbs.samplers.gibbs import force_move
    r = tlc.check("ForcedMoveMC", "SPECIFICATION Spec\nCONSTANTS NMax=%d SMax=%d\nINVARIANTS Inv Rev Pesk Norm1\n"
                  % ((4, 7) if not c.thorough else (4, 12)), workers=8, timeout=3000)
    c.tlc(r, "ForcedMoveMC")
    rng = np.random.default_rng(c.seed + 8)
    vecs = [[1], [1, 1], [1, 3], [3, 1], [0, 4], [4, 0], [1, 2, 5], [5, 2, 1], [2, 2, 2], [0, 3, 5], [3, 5, 0], [0, 8, 0],
            [1, 1, 14], [6, 1, 1], [7, 7, 2], [1, 2, 3, 2], [0, 0, 4, 4], [10, 2, 2, 2], [1, 1, 1, 1], [0, 7, 0, 1], [3, 1, 4, 1, 5, 2]]
    for _ in range(60 if c.thorough else 6):
        n = int(rng.integers(2, 7))
        vecs.append([int(x) for x in rng.multinomial(32, rng.dirichlet(np.full(n, .5)))])
    cases = [(w, k) for w in vecs for k in range(len(w)) if c.thorough or len(w) <= 3 or k in (0, int(np.argmax(w)), len(w) - 1)]
    laws, r = tlc.laws("ForcedMoveX", [dict(what="law", w=w, k=k + 1) for w, k in cases])
    c.tlc(r, "ForcedMoveX")
    leave, r = tlc.laws("ForcedMoveX", [dict(what="leave", w=w, k=k + 1) for w, k in cases])
    c.tlc(r)
    f = jax.jit(jax.vmap(force_move, in_axes=(0, None, None)))
    N = 1_000_000 if c.thorough else 100_000
    key = jax.random.PRNGKey(c.seed + 80)
    for t, ((w, k), law, lv) in enumerate(zip(cases, laws, leave)):
        name = "force_move weights %s from %d" % (w, k)
        wf = jnp.asarray(np.array(w, np.float64) / sum(w), jnp.float32)
        out, err = rec.observe(lambda: [np.asarray(x) for x in f(jax.random.split(jax.random.fold_in(key, t), N), wf, k)])
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        i, alpha = out
        law = {(o - 1,): p for o, p in law.items()}
        c.count("law_cases")
        c.count("law_draws", N)
        if w[k] == sum(w):
            # all mass on the reference: any valid index with positive weight, i.e. the reference itself, or (code's
            # uniform fallback, accepted never) nothing else
            if not np.all(i == k):
                c.violation(name + ": left the only index of positive weight", dict(case=name, idx=np.unique(i).tolist()))
            elif not (np.all(np.isfinite(alpha)) and np.all(np.abs(alpha - 0.0) < 1e-5)):
                c.violation(name + ": reported probability %s of leaving an index that is never left" % alpha[0], dict(case=name))
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(i), law, N)
        c.sample(dict(case=name, law={str(a): str(b) for a, b in law.items()}, result=msg))
        if not ok:
            c.violation("law of %s: %s" % (name, msg), dict(case=name))
            continue
        exact = float(lv.get(1, 0))
        if not np.all(np.abs(alpha - exact) < 2e-5):
            c.violation("%s: reported probability %s, exact %s" % (name, alpha[np.argmax(np.abs(alpha - exact))], exact), dict(case=name))


report.main("C08", body)
