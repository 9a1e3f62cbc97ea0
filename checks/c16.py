import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as Fr
from lib import report, tlc, rec, moments, tracecheck as tc
from lib.obs import obs, rat, rats
from lib.sdeconf import config, clock, build, header, LN2

DX = 4096.0


def trace(rng, linear, j, R0):
    while True:
        c, ts = config(rng)
        ts = [t for t in ts if abs(clock(c, t, c["start"])) <= 8]
        if len(ts) >= 3:
            break
    path = j % 3 != 2
    N = R0 * R0
    shape = (2,) if c["cls"] == "ou" else [(), (2,), (2, 2), (1, 3)][j % 4]
    m = int(np.prod(shape)) if shape else 1
    t0, scalar = ts[0], False
    if not path and c["cls"] != "ou":
        how = j % 9 // 3
        if how == 1:
            ts = ts[1:]
        elif how == 2:
            ts, scalar = ts[-1:], True
    ev = []

    def go():
        sde, disc, u = build(c, linear)
        if c["cls"] == "ou":
            al, V = float(c["al"]), float(c["al"] * c["V"])
            sim = linear.make_ou_sde(-LN2 * al, (2 * LN2 * V) ** 0.5)[2]
            run = lambda k, x, tt, tz: sim(k, x, tt, keep_path=path)
        else:
            sim = linear.make_linear_sde(sde)[2]
            if path:
                run = lambda k, x, tt, tz: sim(k, x, tt)
            elif t0 == ts[0]:
                run = lambda k, x, tt, tz: sim(k, x, tt, keep_path=False)
            else:
                run = lambda k, x, tt, tz: sim(k, x, tt, t0=tz, keep_path=False)
        tt = jnp.float32(float(ts[0])) if scalar else jnp.asarray([float(t) for t in ts], jnp.float32)
        x0 = jnp.asarray(rng.choice([-2.0, 0.5, 1.0, 3.0], size=shape).astype(np.float32))
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 30))), N)
        f = jax.jit(jax.vmap(run, in_axes=[0, None, None, None]))
        P = np.asarray(f(keys, x0, tt, jnp.float32(float(t0))))
        one = f(keys[:16], x0, tt, jnp.float32(float(t0)))
        D = np.asarray(f(keys[:16], x0 + DX, tt, jnp.float32(float(t0)))).astype(np.float64)
        if scalar:
            P, D = P[:, None], D[:, None]
        n = len(ts)
        if P.shape != (N, n, *shape):
            ev.append(dict(e="start", n=P.shape[1] if P.ndim > 1 else -1, d=obs(0.0) if P.ndim > 1 and P.shape[1] != n else moments.BAD))
            return
        base = np.asarray(one, np.float64).reshape(16, n, m)
        D = D.reshape(16, n, m)
        P = P.reshape(N, n, m).astype(np.float64)
        x0 = np.asarray(x0, np.float64).ravel()
        ev.append(dict(e="start", n=n, d=obs(np.max(np.abs(P[:, 0] - x0)) if path else 0.0)))
        dd = np.concatenate([np.full((16, 1, m), DX), D - base], axis=1)     # displacement: of x0, then of each point
        cols = []
        for k in range(1 if path else 0, n):
            with np.errstate(all="ignore"):
                ratio = dd[:, k + 1] / (dd[:, k] if path else DX)
                r0 = dd[:, k + 1] / DX
            F = np.nan_to_num(np.median(ratio, axis=0), nan=1e9, posinf=1e9, neginf=1e9)
            res = P[:, k] - F * (P[:, k - 1] if path else x0)
            cols += [res[:, i] for i in range(m)]
            worst = lambda z: [obs(z[np.argmax(np.abs(z[:, i] - np.median(z[:, i]))), i], 18, 19) for i in range(m)]
            ev.append(dict(e="step", f=worst(ratio), f0=worst(r0), m=[moments.entry(res[:, i]) for i in range(m)]))
        ev.append(dict(e="corr", r=moments.maxcorr(np.stack(cols, axis=1))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    cc = dict(header(c), ts=rats(ts), t0=rat(t0), mode="path" if path else "marg", R0=R0)
    return dict(c=cc, ev=ev, info=dict(fn="simulate_cond_forward", sde={k: str(v) for k, v in c.items()}, ts=[str(t) for t in ts], t0=str(t0),
                                       keep_path=path, shape=list(shape)))


def dts_trace(rng, j, R0):
    from fbs.sdes.simulators import discrete_time_simulator
    K, N = int(rng.integers(1, 5)), R0 * R0
    shape = [(), (2,), (2, 2)][j % 3]
    m = int(np.prod(shape)) if shape else 1
    ticks = np.cumsum(rng.choice([0.25, 0.5, 1.0, 2.0], size=K + 1)).astype(np.float32)
    if j % 4 == 3:
        ticks = ticks[::-1].copy()
    A = rng.choice([1, -1, 2, 3, -2], size=(K + 1, K + 1))
    B = rng.integers(-5, 6, (K + 1, K + 1))
    q = rng.choice([0, 1, 2, 3], size=(K + 1, K + 1))
    T = jnp.asarray(ticks)

    def at(tab, t1, t0):
        i1, i0 = jnp.argmin(jnp.abs(T - t1)), jnp.argmin(jnp.abs(T - t0))
        return jnp.where((jnp.abs(T[i1] - t1) < 1e-6) & (jnp.abs(T[i0] - t0) < 1e-6), jnp.asarray(tab, jnp.float32)[i1, i0], jnp.nan)
    x0 = rng.integers(-3, 4, shape)
    ev = []

    def go():
        sim = lambda key, on: discrete_time_simulator(key, jnp.asarray(x0, jnp.float32), T, lambda x, a, b: at(A, a, b) * x + at(B, a, b),
                                                      lambda a, b: on * at(q, a, b))
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 30))), N)
        f = jax.jit(jax.vmap(sim, in_axes=[0, None]))
        P = np.asarray(f(keys, jnp.float32(1.0)), np.float64)
        Z = np.asarray(f(keys[:1], jnp.float32(0.0)), np.float64)
        ok = P.shape == (N, *shape)
        P, Z = P.reshape(N, -1), Z.reshape(-1)
        ev.append(dict(e="dts", shape=bool(ok), fix=[obs(z, 10) for z in Z], m=[moments.entry(P[:, i] - Z[i]) for i in range(P.shape[1])],
                       r=moments.maxcorr(P)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    mat = lambda M: [[rat(int(z)) for z in r] for r in M]
    return dict(c=dict(K=K, A=mat(A), B=mat(B), q=mat(q), x0=[rat(int(z)) for z in np.ravel(x0)], R0=R0), ev=ev,
                info=dict(fn="discrete_time_simulator", ts=ticks.tolist(), shape=list(shape), A=A.tolist(), B=B.tolist(), q=q.tolist()))


def canaries(ts, td):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    bump = lambda o: [o[0] + max(400, abs(o[0]) // 500), o[1]]
    for t in [next(t for t in ts if t["c"]["mode"] == x) for x in ("path", "marg")]:
        noisy = lambda e: e["e"] == "step" and e["m"][0]["var"][0] > 2000
        add(t, "displacement", lambda e: e["e"] == "step", lambda e: e["f"].__setitem__(0, bump(e["f"][0])))
        add(t, "variance", noisy, lambda e: e["m"][0]["var"].__setitem__(0, e["m"][0]["var"][0] * 6 // 5))
        add(t, "centre", noisy, lambda e: e["m"][-1].update(z=[7 * 4096, 12]))
        add(t, "kurtosis", noisy, lambda e: e["m"][0].update(kurt=[2 * 4096, 12]))
        add(t, "correlation", lambda e: e["e"] == "corr", lambda e: e.update(r=[6554, 16]))
        add(t, "missing point", lambda e: e["e"] == "start", lambda e: e.update(n=e["n"] - 1))
    d = []
    for t in td[:3]:
        d.append(("dts terminal", tc.corrupt(t, lambda e: e["e"] == "dts", lambda e: e["fix"].__setitem__(0, [e["fix"][0][0] + 2000, e["fix"][0][1]]))))
        d.append(("dts variance", tc.corrupt(t, lambda e: e["e"] == "dts" and e["m"][0]["var"][0] > 100,
                                             lambda e: e["m"][0]["var"].__setitem__(0, e["m"][0]["var"][0] * 6 // 5))))
    return out, [x for x in d if x[1] is not None]


def body(c):
    r = tlc.check("LinSDEMC", "SPECIFICATION Spec\nCONSTANTS TIMES={0,1,2,3,4} STEPS=3\nINVARIANTS Composed Stationary Identity Rates\nCHECK_DEADLOCK FALSE\n", workers=8)
    c.tlc(r, "LinSDEMC")
    from fbs.sdes import linear
    rng = np.random.default_rng(c.seed + 16)
    R0, m = (512, 5) if c.thorough else (200, 1)
    ts = [trace(rng, linear, j, R0) for j in range(27 * m)]
    td = [dts_trace(rng, j, R0) for j in range(9 * m)]
    can, cand = canaries(ts, td)
    tc.validate(c, "FwdPathTrace", ts, can, timeout=1800)
    tc.validate(c, "DTSTrace", td, cand, timeout=1800)
    c.assume("noise law at 6.5 standard errors over %d runs with independent keys; the factors of the transitions are compared exactly through "
             "displaced runs with the same key" % (R0 * R0))


report.main("C16", body)
