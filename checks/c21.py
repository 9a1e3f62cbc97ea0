import _path  # noqa
import math
from fractions import Fraction as Fr
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, small as sm, tracecheck as tc
from lib.obs import obs, rat, rats

KINDS = ["cont", "cont_v", "disc"]


def fmap(h, x, t, lib):
    """(a + b t)|x_i| + c x_(d+1-i) + e t + k on the flattened entries of every sample."""
    a, b, c, e, k = h
    y = x.reshape(x.shape[0], -1)[:, ::-1].reshape(x.shape)
    return (a + b * t) * lib.abs(x) + c * y + e * t + k


def setup(rng, j, exact):
    kind = KINDS[j % 3]
    K = int(rng.integers(1, 5))
    n = int(rng.integers(1, 4))
    shape = (int(rng.integers(1, 4)),) if kind == "disc" else [(2,), (), (1, 2), (3,), (2, 2)][(j // 3) % 5]
    m = int(np.prod(shape)) if shape else 1
    if exact:
        ts = [Fr(int(rng.integers(-2, 3)), 2)]
        for _ in range(K):
            ts.append(ts[-1] + Fr(int(rng.choice([1 if kind == "disc" else 0, 1, 1, 2])), int(rng.choice([1, 2]))))
    else:
        ts = [Fr(int(rng.integers(-2, 3)), 2)]
        for _ in range(K):
            ts.append(ts[-1] + Fr(int(rng.choice([1, 4])), 4))
    if (j // 3) % 2:
        ts = ts[::-1]
    coef = lambda: [Fr(int(z), 2) for z in rng.integers(-2, 3, 2)] + [Fr(int(z), 2) for z in rng.integers(-1, 2, 1)] + [Fr(int(z)) for z in rng.integers(-2, 3, 2)]
    return kind, K, n, shape, m, ts, coef(), coef()


def fits(kind, ts, hs, hp, x0):
    """IPF.tla's arithmetic on this instance stays within 32 bits, and the loss within reach of single precision."""
    S = lambda z: sm.S(Fr(z).numerator, Fr(z).denominator)
    ab = lambda z: sm.S(abs(z.n), z.d)
    hs, hp, ts = [S(z) for z in hs], [S(z) for z in hp], [S(t) for t in ts]

    def app(h, x, t):
        a, b, c, e, k = h
        al, be = a + b * t, e * t + k
        return [(al * ab(x[i]) + c * x[-1 - i]) + be for i in range(len(x))]
    try:
        x, err = [[S(int(z)) for z in r.ravel()] for r in x0], sm.S(0)
        for t, u in zip(ts[:-1], ts[1:]):
            dt = ab(u - t)
            mv = (lambda x: app(hs, x, t)) if kind == "disc" else (lambda x: [p + dt * q for p, q in zip(x, app(hs, x, t))])
            y, tot = [mv(r) for r in x], sm.S(0)
            for p, q in reversed(list(zip(x, y))):
                f, F, G = app(hp, q, u), mv(p), mv(q)
                m = [(a - ((z + b) - g)) if kind == "disc" else (dt * a - (b - g)) for a, b, g, z in zip(f, F, G, q)]
                s = sm.S(0)
                for z in reversed(m):
                    s = z * z + s
                tot = s + tot
            x, err = y, err + tot
        return abs(float(err)) < 5000 and max(abs(float(z)) for r in x for z in r) < 50 and abs(err.n) < 2 ** 26 and err.d < 2 ** 12
    except sm.Over:
        return False


def loss_fn(kind):
    from fbs.dsb import base
    return dict(cont=base.ipf_loss_cont, cont_v=base.ipf_loss_cont_v, disc=base.ipf_loss_disc)[kind]


def call(kind, key, p, q, x0, ts, par, sim, disp, gam, jit):
    f = loss_fn(kind)
    if kind == "disc":
        g = lambda key, p, q, x0, ts: f(p, q, x0, ts, gam, par, sim, key)
    else:
        g = lambda key, p, q, x0, ts: f(key, p, q, x0, ts, par, sim, disp)
    return (jax.jit(g) if jit else g)(key, p, q, x0, ts)


def ordered(log, ts):
    """Calls of a compiled, unrolled loop may be reported late: they count in the order of the times they name."""
    t = lambda e: float(e[0]) if np.ndim(e[0]) == 0 and np.isfinite(e[0]) else np.inf
    return sorted(log, key=lambda e: t(e) if ts[-1] >= ts[0] or t(e) == np.inf else -t(e))


def hdr(h):
    return {k: rat(v) for k, v in zip("abcek", h)}


PP, QQ = 5.0, 7.0


def exact_trace(rng, j):
    while True:
        kind, K, n, shape, m, ts, hs, hp = setup(rng, j, True)
        x0 = rng.integers(-3, 4, (n, *shape))
        if fits(kind, ts, hs, hp, x0):
            break
    ev, fl = [], (lambda h: [float(z) for z in h])
    jit = j % 4 == 1

    def go():
        log = []

        def par(x, t, p):
            def f(x, t, p):
                log.append((float(t) if t.ndim == 0 else np.nan, x, np.array_equal(p, [PP])))
                return np.zeros(x.shape, np.float32)
            # the parameters enter the value: the wrong ones give another loss
            return fmap(fl(hp), x, t, jnp) * (p[0] / PP) + rec.call(f, rec.f32(x.shape), x, t, p)

        def sim(x, t, q):
            return fmap(fl(hs), x, t, jnp) * (q[0] / QQ)
        v = np.asarray(call(kind, jax.random.PRNGKey(int(rng.integers(2 ** 30))), jnp.array([PP]), jnp.array([QQ]), jnp.asarray(x0, jnp.float32),
                            jnp.asarray([float(t) for t in ts], jnp.float32), par, sim, lambda t: 0.0 * t, jnp.zeros(K), jit))
        for t, x, pok in ordered(log, ts):
            x = np.asarray(x, np.float64)
            ev.append(dict(e="eval", t=rat(Fr(t)) if np.isfinite(t) else [7, 77], param=bool(pok), S=0,
                           x=[[obs(z, 14, 20) for z in r.ravel()] for r in x] if x.shape == (n, *shape) else []))
        ev.append(dict(e="loss", v=obs(v, 12, 16) if v.shape == () else moments.BAD))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    c = dict(kind="disc" if kind == "disc" else "cont", exact=True, ts=rats(ts), sim=hdr(hs), par=hdr(hp), x0=[rats([int(z) for z in r.ravel()]) for r in x0],
             var=[], R0=1, cells=n * m)
    return dict(c=c, ev=ev, info=dict(loss=kind, ts=[str(t) for t in ts], shape=[n, *shape], jit=jit, sim=[str(z) for z in hs], par=[str(z) for z in hp]))


def noise_trace(rng, j, R0):
    kind, K, _, shape, m, ts, hs, _ = setup(rng, j, False)
    n = R0 * R0 // m + 1
    x0 = rng.integers(-3, 4, (n, *shape)).astype(np.float64)
    g0, g1 = int(rng.integers(1, 4)), int(rng.integers(-2, 3))
    gam = [Fr(int(z), 4) for z in rng.integers(1, 5, K)]
    hs = [z / 2 for z in hs[:3]] + hs[3:]
    fh = [float(z) for z in hs]
    disp = lambda t: g0 + g1 * t
    dts = [abs(b - a) for a, b in zip(ts[:-1], ts[1:])]
    var = gam if kind == "disc" else [d * (g0 + g1 * t) ** 2 for d, t in zip(dts, ts[:-1])]
    E = [rng.integers(-2, 4, (n, *shape)) if k else rng.integers(0, 2, (n, *shape)) for k in range(K)]
    ev = []
    jit = j % 4 == 1
    key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))
    sim = lambda x, t, q: fmap(fh, x, t, jnp) * (q[0] / QQ)
    T = np.array([float(t) for t in ts])

    def go():
        def run(val):
            log = []

            def par(x, t, p):
                def f(x, t, p):
                    log.append((t, np.asarray(x, np.float64), np.array_equal(p, [PP])))
                    return val(x, t).astype(np.float32)
                return rec.call(f, rec.f32(x.shape), x, t, p)
            v = np.asarray(call(kind, key, jnp.array([PP]), jnp.array([QQ]), jnp.asarray(x0, jnp.float32), jnp.asarray(T, jnp.float32), par, sim, disp,
                                jnp.asarray([float(z) for z in gam], jnp.float32), jit))
            return ordered(log, T), (obs(v, 12, 16) if v.shape == () else moments.BAD)
        log, _ = run(lambda x, t: np.zeros(x.shape))
        if len(log) != K or any(x.shape != x0.shape for _, x, _ in log) or any(np.asarray(t).ndim for t, _, _ in log):
            ev.append(dict(e="shape", clause="one evaluation per step, of the samples' shape"))
            return
        xs = [x0] + [x for _, x, _ in log]
        step = [(xs[k] * (kind != "disc") + fmap(fh, xs[k], T[k], np) * (1.0 if kind == "disc" else float(dts[k]))) for k in range(K)]
        incs = [xs[k + 1] - step[k] for k in range(K)]
        if kind == "disc":
            target = [xs[k + 1] + step[k] - fmap(fh, xs[k + 1], T[k], np) for k in range(K)]
            scale = [1.0] * K
        else:
            target = [step[k] - (xs[k + 1] + fmap(fh, xs[k + 1], T[k], np) * float(dts[k])) for k in range(K)]
            scale = [float(d) for d in dts]

        def answers(err):
            def val(x, t):
                k = int(np.argmin(np.abs(T[1:] - float(t))))
                return (target[k] + err[k]) / scale[k]
            return val
        zero = [np.zeros(x0.shape, np.int64)] * K
        for err in (E, zero):
            log, v = run(answers(err))
            for k, (t, x, pok) in enumerate(log[:K]):
                i = int(np.argmin(np.abs(T - float(t))))
                inc = incs[k].reshape(n, m)
                ev.append(dict(e="eval", t=rat(ts[i]) if abs(T[i] - float(t)) < 1e-5 else [7, 77], param=bool(pok), x=[], S=int((err[k] ** 2).sum()),
                               m=moments.entry(inc), r=moments.maxcorr(inc) if m > 1 else obs(0.0, 12)))
            ev.append(dict(e="loss", v=v))
        ev.append(dict(e="noise", r=moments.maxcorr(np.concatenate([i.reshape(n, m) for i in incs], axis=1)) if K * m > 1 else obs(0.0, 12)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    c = dict(kind="disc" if kind == "disc" else "cont", exact=False, ts=rats(ts), var=rats(var), R0=int(math.sqrt(n)), cells=n * m, x0=[])
    return dict(c=c, ev=ev, info=dict(loss=kind, ts=[str(t) for t in ts], shape=[n, *shape], jit=jit, sim=[str(z) for z in hs], dispersion=[g0, g1],
                                      gammas=[str(z) for z in gam]))


def agree_trace(rng, j):
    shape = [(), (3,), (2, 2), (4, 4, 1)][j % 4]
    n, K = int(rng.integers(1, 9)), int(rng.integers(1, 8))
    ts = np.cumsum(rng.uniform(0.01, 0.4, K + 1))[::(1 if j % 2 else -1)]
    ev = []

    def go():
        p, q = jnp.asarray(rng.normal(size=3), jnp.float32), jnp.asarray(rng.normal(size=3), jnp.float32)
        f = lambda x, t, p: jnp.tanh(p[0] * x + p[1] * t) * p[2] + jnp.mean(x)
        x0 = jnp.asarray(rng.normal(size=(n, *shape)), jnp.float32)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))
        v = [np.asarray(call(k, key, p, q, x0, jnp.asarray(ts.copy(), jnp.float32), f, f, lambda t: 1 + jnp.sin(t), None, True), np.float64)
             for k in ("cont", "cont_v")]
        ev.append(dict(e="agree", d=obs((v[0] - v[1]) / max(1.0, abs(v[0])), 20) if v[0].shape == () and v[1].shape == () else moments.BAD))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(kind="cont", exact=False, ts=rats([0, 1]), var=[], R0=1, cells=1, x0=[]), ev=ev, info=dict(loss="cont and cont_v", shape=[n, *shape], ts=ts.tolist()))


def canaries(te, tn, ta):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in te[:6]:
        add(t, "loss", lambda e: e["e"] == "loss", lambda e: e.update(v=[e["v"][0] + 100 + abs(e["v"][0]) // 100, e["v"][1]]))
        add(t, "time", lambda e: e["e"] == "eval", lambda e: e.update(t=[97, 3]))
        add(t, "state", lambda e: e["e"] == "eval", lambda e: e["x"][0].__setitem__(0, [e["x"][0][0][0] + 300, e["x"][0][0][1]]))
    for t in tn[:6]:
        add(t, "noisy loss", lambda e: e["e"] == "loss", lambda e: e.update(v=[e["v"][0] + 100 + abs(e["v"][0]) // 100, e["v"][1]]))
        add(t, "correlation", lambda e: e["e"] == "noise", lambda e: e.update(r=[6554 * 3, 16]))
        add(t, "noise mean", lambda e: e["e"] == "eval" and e["m"]["var"][0] > 100, lambda e: e["m"].update(z=[8 * 4096, 12]))
    add(ta[0], "agreement", lambda e: e["e"] == "agree", lambda e: e.update(d=[100, 20]))
    return out


def body(c):
    r = tlc.check("IPFMC", "SPECIFICATION Spec\nCONSTANTS GRID=3 VALS=%s XS=%s\nINVARIANTS OneLoss NonNeg Zero\nCHECK_DEADLOCK FALSE\n" % (
        ("{0,1,2}", "{0,1,3}") if c.thorough else ("{0,2}", "{0,3}")), workers=8)
    c.tlc(r, "IPFMC")
    import fbs.dsb.base  # noqa
    rng = np.random.default_rng(c.seed + 21)
    R0, m = (150, 8) if c.thorough else (64, 1)
    te = [exact_trace(rng, j) for j in range(30 * m)]
    tn = [noise_trace(rng, j, R0) for j in range(15 * m)]
    ta = [agree_trace(rng, j) for j in range(8 * m)]
    tc.validate(c, "IPFTrace", te + tn + ta, canaries(te, tn, ta), timeout=1800)


report.main("C21", body)
