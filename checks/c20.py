import _path  # noqa
import math
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, small as sm, tracecheck as tc
from lib.obs import obs, obss, mobs
from lib.small import S


def pd(M):
    return M[0][0].n > 0 and sm.det(M).n > 0


def formulas(g, t, xs):
    """GSB.tla's computations, in its order, to see that they stay within 32 bits."""
    n, r = len(g["C0"]), S(1) - t
    rt = r * t
    s2I = sm.scale(g["s2"], sm.eye(n))
    K = sm.mul(g["C"], sm.inv(g["C1"]))
    sm.add(sm.scale(g["s2"], K), sm.mul(K, sm.T(g["C"])))
    sm.det(K), sm.det(g["C0"])
    mean = [r * a + t * b for a, b in zip(g["m0"], g["m1"])]
    CC = sm.add(g["C"], sm.T(g["C"]))
    cov = sm.add(sm.add(sm.scale(r * r, g["C0"]), sm.scale(t * t, g["C1"])), sm.scale(rt, sm.add(CC, s2I)))
    cross = sm.sub(sm.add(sm.scale(r, sm.T(g["C"])), sm.scale(t, g["C1"])), sm.add(sm.scale(r, g["C0"]), sm.scale(t, sm.add(g["C"], s2I))))
    A = sm.mul(cross, sm.inv(cov))
    v = [a - b for a, b in zip(g["m1"], g["m0"])]
    for x in xs:
        [a + b for a, b in zip(v, sm.vec(A, [p - q for p, q in zip(x, mean)]))]
    return cov, A


def instance(rng):
    """A bridge with rational coupling: unimodular root of C0, chosen root D of 4 S C1 S + sig^4."""
    while True:
        try:
            n = int(rng.choice([1, 2, 2, 2]))
            if n == 1:
                Sq, D = [[S(int(rng.integers(1, 4)), int(rng.choice([1, 2])))]], [[S(int(rng.integers(1, 7)), int(rng.choice([1, 2])))]]
            else:
                a, b = int(rng.integers(1, 4)), int(rng.integers(-2, 3))
                if (1 + b * b) % a:
                    continue
                Sq = [[S(a), S(b)], [S(b), S((1 + b * b) // a)]]
                p, q, r = int(rng.integers(1, 7)), int(rng.integers(-3, 4)), int(rng.integers(1, 7))
                h = int(rng.choice([1, 1, 2]))
                D = [[S(p, h), S(q, h)], [S(q, h), S(r, h)]]
            s = S(int(rng.integers(1, 4)), int(rng.choice([1, 2])))
            s2 = s * s
            X = sm.sub(sm.mul(D, D), sm.scale(s2 * s2, sm.eye(n)))
            if not (pd(Sq) and pd(D) and pd(X)):
                continue
            Si = sm.inv(Sq)
            C1 = sm.scale(S(1, 4), sm.mul(Si, sm.mul(X, Si)))
            C = sm.scale(S(1, 2), sm.sub(sm.mul(Sq, sm.mul(D, Si)), sm.scale(s2, sm.eye(n))))
            g = dict(m0=[S(int(z)) for z in rng.integers(-3, 4, n)], m1=[S(int(z)) for z in rng.integers(-3, 4, n)],
                     C0=sm.mul(Sq, Sq), C1=C1, C=C, s2=s2)
            ts = [S(k, 4) for k in range(5)]
            xs = [[S(int(z)) for z in rng.integers(-3, 4, n)] for _ in range(2)]
            covs = [formulas(g, t, xs)[0] for t in ts]
            # single precision must be able to follow
            ev = [np.linalg.eigvalsh(np.array(sm.fl(M))) for M in covs + [X]]
            if max(e[-1] / e[0] for e in ev) > 60 or max(e[-1] for e in ev[:-1]) > 30:
                continue
            return g, s, ts, xs
        except sm.Over:
            continue


def exact(rng, linear, j):
    g, s, ts, xs = instance(rng)
    n = len(g["C0"])
    f32 = lambda z: jnp.asarray(np.array(sm.fl(z)), jnp.float32)
    ev = []

    def go():
        mean, cov, drift = linear.make_gaussian_bw_sb(f32(g["m0"]), f32(g["C0"]), f32(g["m1"]), f32(g["C1"]), sig=float(s))
        if j % 2:
            mean, cov, drift = jax.jit(mean), jax.jit(cov), jax.jit(drift)
        for t in ts:
            tf = jnp.float32(float(t)) if j % 3 else float(t)
            m, Sg = [np.asarray(h(tf), np.float64) for h in (mean, cov)]
            mx = f32(g["m0"]) * (1 - tf) + f32(g["m1"]) * tf
            d = lambda x: np.asarray(drift(jnp.asarray(x, jnp.float32), tf), np.float64)
            b0 = d(mx)
            A = np.stack([(d(np.asarray(mx) + 4 * np.eye(n)[i]) - b0) / 4 for i in range(n)], axis=1)
            ev.append(dict(e="at", t=t.pair(), mean=obss(m, 18, 20), cov=mobs(Sg, 18, 18), b0=obss(b0, 16, 18), A=mobs(A, 16, 17),
                           x=sm.pair(xs), b=[obss(d(np.array(sm.fl(x))), 15, 17) for x in xs]))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(g={k: (v.pair() if isinstance(v, S) else sm.pair(v)) for k, v in g.items()}, d=n), ev=ev,
                info=dict(fn="make_gaussian_bw_sb", g={k: (float(v) if isinstance(v, S) else sm.fl(v)) for k, v in g.items()}, sig=float(s)))


def real(rng, linear, j):
    """Real coefficients, one to five dimensions: the defining equations up to rounding."""
    n = 1 + j % 5
    rnd = lambda: (lambda Q, e: (Q * e) @ Q.T)(np.linalg.qr(rng.normal(size=(n, n)))[0], rng.uniform(0.3, 2.5, n))
    C0, C1, sig = rnd(), rnd(), float(rng.uniform(0.4, 1.6))
    m0, m1 = rng.normal(size=(2, n)) * 2
    ev = []

    def go():
        f = lambda z: jnp.asarray(z, jnp.float32)
        kw = {} if j % 4 == 3 else dict(sig=sig)
        sg = kw.get("sig", 1.0)
        mean, cov, drift = linear.make_gaussian_bw_sb(f(m0), f(C0), f(m1), f(C1), **kw)
        mu = lambda t: np.asarray(mean(jnp.float32(t)), np.float64)
        cv = lambda t: np.asarray(cov(jnp.float32(t)), np.float64)
        o, O = (lambda z: obss(z, 14, 15)), (lambda z: obss(z, 14, 15))
        for t in [0.0, 1.0] + rng.uniform(0.0, 1.0, 4).tolist():
            t = float(np.float32(t))
            d = lambda x: np.asarray(drift(jnp.asarray(x, jnp.float32), jnp.float32(t)), np.float64)
            m, Sg = mu(t), cv(t)
            b0 = d(m)
            h = 2.0
            A = np.stack([(d(m + h * np.eye(n)[i]) - b0) / h for i in range(n)], axis=1)
            x = m + rng.normal(size=n) * 2
            h = 0.5                    # mean and covariance are polynomials of degree two
            ev.append(dict(e="real", m0=o(mu(0.0) - m0), m1=o(mu(1.0) - m1), c0=O(cv(0.0) - C0), c1=O(cv(1.0) - C1), asym=O(Sg - Sg.T),
                           vel=o(b0 - (mu(t + h) - mu(t - h)) / (2 * h)), affine=o(d(x) - b0 - A @ (x - m)),
                           flow=O((cv(t + h) - cv(t - h)) / (2 * h) - A @ Sg - Sg @ A.T - sg ** 2 * np.eye(n)), curl=O(A - A.T)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(d=n), ev=ev, info=dict(fn="make_gaussian_bw_sb", C0=C0.tolist(), C1=C1.tolist(), m0=m0.tolist(), m1=m1.tolist(), sig=sig))


def canaries(te, tr):
    out = []

    def bump(e, k, ij=(0, 0), by=200):
        q = e[k]
        for i in ij[:-1]:
            q = q[i]
        q[ij[-1]] = [q[ij[-1]][0] + by + abs(q[ij[-1]][0]) // 500, q[ij[-1]][1]]
    for t in te[:6]:
        n = t["c"]["d"] - 1
        out += [(k, tc.corrupt(t, lambda e: e["e"] == "at", lambda e: bump(e, k, ij)))
                for k, ij in (("mean", (n,)), ("cov", (0, n)), ("b0", (n,)), ("A", (n, 0)), ("b", (1, 0)))]
    for t in tr[:5]:
        n = t["c"]["d"] - 1
        out += [(k, tc.corrupt(t, lambda e: e["e"] == "real", lambda e: bump(e, k, ij)))
                for k, ij in (("m1", (n,)), ("c1", (0, n)), ("asym", (n, 0)), ("vel", (0,)), ("flow", (0, n)), ("curl", (n, n)))]
    return [x for x in out if x[1]]


def body(c):
    r = tlc.check("GSBMC", "SPECIFICATION Spec\nCONSTANTS NROOTS=%d DMAX=%d TIMES={%s}\nINVARIANTS IsBridge Ends Positive FlowOk Grad Rev\nCHECK_DEADLOCK FALSE\n" % (
        (6, 5, "1,2,3,4") if c.thorough else (3, 3, "1,2,4")), workers=8, timeout=1800)
    c.tlc(r, "GSBMC")
    from fbs.sdes import linear
    rng = np.random.default_rng(c.seed + 20)
    m = 8 if c.thorough else 1
    te = [exact(rng, linear, j) for j in range(24 * m)]
    tr = [real(rng, linear, j) for j in range(15 * m)]
    tc.validate(c, "GSBTrace", te + tr, canaries(te, tr), timeout=1800)


report.main("C20", body)
