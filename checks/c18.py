import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, emrec, moments, tracecheck as tc
from lib.obs import obs, rat, rats
from lib.sdeconf import config, clock, build, header


def drift_trace(rng, linear, j):
    while True:
        c, ts = config(rng)
        T = [t for t in ts if 0 < abs(clock(c, t, ts[0])) <= 5]
        if c["cls"] in ("const", "lin") and T:
            break
    T = T[-1]
    shape = [(), (2,), (2, 2), (3,)][j % 4]
    m = int(np.prod(shape)) if shape else 1
    ev = []

    def go():
        sde, _, u = build(c, linear)
        f = jax.jit(lambda x, t, y, T: sde.bridge_drift(x, t, y, T)) if j % 2 else sde.bridge_drift
        for t in ts:
            if t < T and clock(c, T, t) != 0:
                x, y = rng.integers(-3, 4, shape), rng.integers(-3, 4, shape)
                v = np.asarray(f(jnp.asarray(x, jnp.float32), jnp.float32(float(t)), jnp.asarray(y, jnp.float32), jnp.float32(float(T))), np.float64)
                ev.append(dict(e="drift", t=rat(t), T=rat(T), x=rats([int(z) for z in np.ravel(x)]), target=rats([int(z) for z in np.ravel(y)]),
                               v=[obs(z, 19, 20) for z in v.ravel() / u] if v.shape == shape else []))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=header(c), ev=ev, info=dict(fn="bridge_drift", sde={k: str(v) for k, v in c.items()}, T=str(T), shape=list(shape)))


def ends_trace(rng, linear, j):
    from fbs.sdes.simulators import doob_bridge_simulator
    cls = j % 2
    sde = linear.StationaryConstLinearSDE(-0.7, 1.1) if cls else linear.StationaryLinLinearSDE(0.3, 2.0, 0.5, 4.0)
    K = int(rng.integers(2, 6))
    ts = jnp.asarray(0.5 + np.cumsum(rng.choice([0.25, 0.5], size=K + 1)), jnp.float32)
    shape = [(), (2,), (2, 2)][j % 3]
    x0, xT = [jnp.asarray(rng.normal(size=shape), jnp.float32) for _ in range(2)]
    ev = []

    def go():
        key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))
        a, b = [np.asarray(doob_bridge_simulator(key, sde, x0, xT, ts, integration_nsteps=1 + j % 3, replace=r), np.float64)
                for r in (True, False)]
        if a.shape != (K + 1, *shape) or b.shape != a.shape:
            ev.append(dict(e="ends", n=a.shape[0] if a.ndim else -1, K=K, first=obs(0.0), last=moments.BAD, rest=moments.BAD))
            return
        ev.append(dict(e="ends", n=a.shape[0], K=K, first=obs(np.max(np.abs(a[0] - np.asarray(x0)))), last=obs(np.max(np.abs(a[-1] - np.asarray(xT)))),
                       rest=obs(np.max(np.abs(a[:-1] - b[:-1])))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(cls="const"), ev=ev, info=dict(fn="doob_bridge_simulator", sde=type(sde).__name__, ts=np.asarray(ts).tolist(), shape=list(shape)))


def body(c):
    r = tlc.check("DoobMC", "SPECIFICATION Spec\nCONSTANTS TIMES={0,1,2,3%s}\nINVARIANTS Affine Prior Pull\nCHECK_DEADLOCK FALSE\n" % (",4,5" if c.thorough else ""))
    c.tlc(r, "DoobMC")
    from fbs.sdes import linear
    rng = np.random.default_rng(c.seed + 18)
    R0, m = (400, 6) if c.thorough else (128, 1)
    tb = [emrec.trace(rng, j, "doob", R0) for j in range(16 * m)]
    tc.validate(c, "EMTrace", tb, emrec.canaries(tb), timeout=1800)
    td = [drift_trace(rng, linear, j) for j in range(40 * m)] + [ends_trace(rng, linear, j) for j in range(6 * m)]
    can = []
    for t in td[:4]:
        can.append(("drift", tc.corrupt(t, lambda e: e["e"] == "drift", lambda e: e["v"][0].__setitem__(0, e["v"][0][0] + max(400, abs(e["v"][0][0]) // 500)))))
    can.append(("end", tc.corrupt(td[-1], lambda e: e["e"] == "ends", lambda e: e.update(last=[5, 22]))))
    tc.validate(c, "DoobTrace", td, [x for x in can if x[1]], timeout=1800)


report.main("C18", body)
