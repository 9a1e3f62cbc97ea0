import _path  # noqa
import math
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, small as sm, tracecheck as tc
from lib.obs import obs, mobs
from lib.small import S

f = lambda z: jnp.asarray(np.array(sm.fl(z)), jnp.float32)


def cond(*Ms):
    for M in Ms:
        e = np.linalg.eigvalsh(np.array(sm.fl(M)))
        if e[0] <= 0 or e[-1] / e[0] > 60 or e[-1] > 40 or e[0] < 0.05:
            return False
    return True


def spd(rng, n, hi=4):
    while True:
        A = [[S(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                A[i][j] = A[j][i] = S(int(rng.integers(1, hi + 1) if i == j else rng.integers(-2, 3)), 1)
        if cond(A):
            return A


def lower(rng, n):
    L = [[S(int(rng.integers(-2, 3))) if j < i else S(0) for j in range(n)] for i in range(n)]
    for i in range(n):
        L[i][i] = [S(1), S(2), S(1, 2), S(1)][int(rng.integers(4))]
    return L


def kl_trace(rng, j):
    from fbs import utils as U
    while True:
        try:
            n = 1 + j % 3
            L0, L1 = lower(rng, n), lower(rng, n)
            C0, C1 = [sm.mul(L, sm.T(L)) for L in (L0, L1)]
            if not cond(C0, C1):
                continue
            m0, m1 = [[S(int(z)) for z in rng.integers(-3, 4, n)] for _ in range(2)]
            K = sm.inv(C1)
            d = [a - b for a, b in zip(m1, m0)]
            t = sm.mul(K, C0)
            tr = S(0)
            for i in reversed(range(n)):
                tr = t[i][i] + tr
            S(1, 2) * ((tr - S(n)) + sm.dot(d, sm.vec(K, d)))
            klog = int(math.log2(float(sm.det(C1)))) - int(math.log2(float(sm.det(C0))))
            break
        except sm.Over:
            continue
    jit = (lambda g: jax.jit(g)) if j % 2 else (lambda g: g)
    v, err = rec.observe(lambda: jit(U.kl)(f(m0), f(C0), f(m1), f(C1)))
    ev = [err] if err else [dict(e="kl", v=rec.q1(v, 65536))]
    return dict(c=dict(m0=sm.pair(m0), m1=sm.pair(m1), C0=sm.pair(C0), C1=sm.pair(C1), klog=klog), ev=ev,
                info=dict(fn="kl", m0=sm.fl(m0), C0=sm.fl(C0), m1=sm.fl(m1), C1=sm.fl(C1)))


def bures_trace(rng, j):
    from fbs import utils as U
    while True:
        try:
            n = 1 + j % 3
            C0 = spd(rng, n)
            T = sm.scale(S(1, int(rng.choice([1, 2]))), spd(rng, n, 3))
            C1 = sm.mul(T, sm.mul(C0, T))
            m0, m1 = [[S(int(z)) for z in rng.integers(-3, 4, n)] for _ in range(2)]
            D = sm.sub(sm.eye(n), T)
            sm.mul(D, sm.mul(C0, D))
            sm.det(C0), sm.det(T)
            if cond(C0, C1):
                break
        except sm.Over:
            continue
    ev = []

    def go():
        jit = (lambda g: jax.jit(g)) if j % 2 else (lambda g: g)
        v, w = jit(U.bures_dist)(f(m0), f(C0), f(m1), f(C1)), jit(U.bures_dist)(f(m1), f(C1), f(m0), f(C0))
        o = lambda z: obs(z, 12, 16) if np.ndim(z) == 0 else moments.BAD
        ev.append(dict(e="bures", v=o(v), w=o(w)))
        k = [jit(U.kl)(f(m), f(C), f(m), f(C)) for m, C in ((m0, C0), (m1, C1))]
        b = [jit(U.bures_dist)(f(m), f(C), f(m), f(C)) for m, C in ((m0, C0), (m1, C1))]
        for p, q in zip(k, b):
            ev.append(dict(e="same", kl=obs(p, 16, 30), b=obs(q, 14, 30)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(m0=sm.pair(m0), m1=sm.pair(m1), C0=sm.pair(C0), C1=sm.pair(C1), T=sm.pair(T)), ev=ev,
                info=dict(fn="bures_dist", m0=sm.fl(m0), C0=sm.fl(C0), m1=sm.fl(m1), C1=sm.fl(C1)))


def sqrt_trace(rng, j):
    from fbs import utils as U
    n = 1 + j % 3
    M = sm.scale(S(1, int(rng.choice([1, 2, 4]))), spd(rng, n, 5))
    A = sm.mul(M, M)
    method = ["eigh", "schur", None][j % 3 if j > 2 else 2]
    v, err = rec.observe(lambda: np.asarray(U.sqrtm(f(A), **({} if method is None else dict(method=method))), np.float64))
    ev = [err] if err else [dict(e="sqrt", v=mobs(v, 16, 16) if v.shape == (n, n) else [])]
    return dict(c=dict(root=sm.pair(M)), ev=ev, info=dict(fn="sqrtm", method=method, arg=sm.fl(A)))


def real_trace(rng, j):
    from fbs import utils as U
    n = 1 + j % 6
    rnd = lambda: (lambda Q, e: (Q * e) @ Q.T)(np.linalg.qr(rng.normal(size=(n, n)))[0], rng.uniform(0.2, 3.0, n))
    C0, C1 = rnd(), rnd()
    m0, m1 = rng.normal(size=(2, n))
    ev = []

    def go():
        F = lambda z: jnp.asarray(z, jnp.float32)
        r = np.asarray(U.sqrtm(F(C0)), np.float64)
        q = np.asarray(U.sqrtm(F(C0), "other"), np.float64)
        o = lambda z: mobs(z, 14, 15)
        k01, k10 = [float(U.kl(F(a), F(A), F(b), F(B))) for a, A, b, B in ((m0, C0, m1, C1), (m1, C1, m0, C0))]
        b01, b10 = [float(U.bures_dist(F(a), F(A), F(b), F(B))) for a, A, b, B in ((m0, C0, m1, C1), (m1, C1, m0, C0))]
        d = m1 - m0
        K0, K1 = np.linalg.inv(C0), np.linalg.inv(C1)
        sym = 0.5 * (np.trace(K1 @ C0) + np.trace(K0 @ C1) - 2 * n + d @ (K0 + K1) @ d)
        ev.append(dict(e="real", asym=o(r - r.T), sq=o(r @ r - C0), other=o(q - r), kl=obs(k01, 20), b=obs(b01, 20), bsym=obs((b01 - b10) / max(1, abs(b01)), 18),
                       jeff=obs((k01 + k10 - sym) / max(1, sym), 18)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(d=n), ev=ev, info=dict(fn="kl, bures_dist, sqrtm", C0=C0.tolist(), C1=C1.tolist(), m0=m0.tolist(), m1=m1.tolist()))


def canaries(tk, tb, ts, tr):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in tk[:4]:
        add(t, "kl", lambda e: e["e"] == "kl", lambda e: e.update(v=e["v"] + 60 + abs(e["v"]) // 2000))
    for t in tb[:4]:
        add(t, "distance", lambda e: e["e"] == "bures", lambda e: e.update(v=[e["v"][0] + 80, e["v"][1]]))
        add(t, "self", lambda e: e["e"] == "same", lambda e: e.update(kl=[40, 16]))
    for t in ts[:4]:
        add(t, "root", lambda e: e["e"] == "sqrt", lambda e: e["v"][0].__setitem__(0, [e["v"][0][0][0] + 60, e["v"][0][0][1]]))
    add(tr[0], "square", lambda e: e["e"] == "real", lambda e: e["sq"][0].__setitem__(0, [90, 14]))
    return out


def body(c):
    r = tlc.check("DivergeMC", "SPECIFICATION Spec\nCONSTANTS AMAX=%d BMAX=%d PMAX=%d\nINVARIANTS Optimal Attained OnlyEqual\nCHECK_DEADLOCK FALSE\n" % ((4, 2, 2) if c.thorough else (2, 1, 1)), workers=8)
    c.tlc(r, "DivergeMC")
    import fbs.utils  # noqa
    rng = np.random.default_rng(c.seed + 27)
    m = 10 if c.thorough else 1
    tk, tb = [kl_trace(rng, j) for j in range(30 * m)], [bures_trace(rng, j) for j in range(24 * m)]
    ts, tr = [sqrt_trace(rng, j) for j in range(18 * m)], [real_trace(rng, j) for j in range(12 * m)]
    tc.validate(c, "DivergeTrace", tk + tb + ts + tr, canaries(tk, tb, ts, tr), timeout=1800)


report.main("C27", body)
