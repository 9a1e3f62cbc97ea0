"""Runs of the Euler-Maruyama integrator, the reverse simulator and the Doob bridge simulator in the alphabet of EM.tla."""
from fractions import Fraction as Fr
import numpy as np
import jax
import jax.numpy as jnp
from . import rec, moments, tracecheck as tc
from .obs import obs, rat, rats

DX = 4096.0


def grid(rng, kind, n):
    """Times whose substeps are multiples of a power of two."""
    K = int(rng.integers(1, max(2, 6 // n) + 1)) if n < 4 else 1
    unit = Fr(n, int(rng.choice([1, 2, 4] if K * n <= 4 else [1, 2])))
    steps = [unit * int(rng.choice([1, 1, 2])) for _ in range(K)]
    if K > 1 and rng.random() < 0.15:
        steps[int(rng.integers(K))] = Fr(0)
    s = Fr(int(rng.integers(-2, 6)), 2)
    ts = [s]
    for d in steps:
        ts.append(ts[-1] + d)
    mode = rng.random()
    if mode < 0.35:
        ts = ts[::-1]
    elif mode < 0.45 and K > 1:       # back and forth
        ts = ts[:2] + [ts[1] - steps[1]] + ([] if K < 3 else ts[:1])
    return ts


def trace(rng, j, kind, R0):
    from fbs.sdes import simulators as S
    n = int(rng.choice([1, 1, 2, 3, 4]))
    ts = grid(rng, kind, n)
    K, N = len(ts) - 1, R0 * R0
    shape = [(), (2,), (2, 2), (3,)][j % 4]
    m = int(np.prod(shape)) if shape else 1
    subs = sorted({ts[k] + (ts[k + 1] - ts[k]) * Fr(i, n) for k in range(K) for i in range(n)})
    T = ts[-1]
    ticks = sorted({T - t for t in subs}) if kind == "rev" else subs
    L = len(ticks)
    tab = lambda lo, hi: rng.integers(lo, hi + 1, L)
    small = K * n > 4
    a, sa = tab(-1, 1) if small else tab(-2, 1), tab(-1, 1)
    b, sb, g = tab(-3, 3), tab(-3, 3), rng.choice([0, 1, 1, 2] if not small or kind != "rev" else [0, 1, 1], size=L)
    h = int(rng.integers(-2, 3)) if kind == "doob" else 0
    x0, tgt = rng.integers(-3, 4, shape), rng.integers(-4, 5, shape)
    repl = kind == "doob" and bool(j % 2)
    path = kind == "doob" or (kind == "em" and j % 3 != 2)
    tk = jnp.asarray([float(t) for t in ticks], jnp.float32)

    def at(tb, t):
        t = jnp.asarray(t)
        i = jnp.argmin(jnp.abs(tk - t))
        return jnp.where((jnp.abs(tk[i] - t) < 1e-3) & (t.ndim == 0), tb[i], jnp.nan)
    f32 = lambda z: jnp.asarray(z, jnp.float32)
    tt = f32([float(t) for t in ts])

    def run(key, x, lin, on, want_path=path):
        A, B, G, SA, SB = f32(a) * lin, f32(b), f32(g) * on, f32(sa) * lin, f32(sb)
        if kind == "em":
            return S.euler_maruyama(key, x, tt, lambda x, t: at(A, t) * x + at(B, t), lambda t: at(G, t), integration_nsteps=n, return_path=want_path)
        if kind == "rev":
            return S.reverse_simulator(key, x, tt, lambda x, t: at(SA, t) * x + at(SB, t), lambda x, t: at(A, t) * x + at(B, t), lambda t: at(G, t),
                                       integration_nsteps=n)

        class Sde:
            def bridge_drift(self, x, t, target, T):
                return at(A, t) * x + at(B, t) * target + h * T

            def drift(self, x, t):
                return x * jnp.nan

            def dispersion(self, t):
                return at(G, t)
        return S.doob_bridge_simulator(key, Sde(), x, f32(tgt), tt, integration_nsteps=n, replace=repl)
    ev = []

    def go():
        f = jax.jit(jax.vmap(run, in_axes=[0, None, None, None]))
        keys = jax.random.split(jax.random.PRNGKey(int(rng.integers(2 ** 30))), N)
        few = keys[:16]
        P = K + 1 if path else 1

        def pts(z):
            z = np.asarray(z, np.float64)
            want = (z.shape[0], K + 1, *shape) if path else (z.shape[0], *shape)
            if z.shape != want:
                raise AssertionError("returned shape %s, wanted %s" % (z.shape[1:], want[1:]))
            return z.reshape(z.shape[0], P, m)
        X0 = f32(x0)
        fix = pts(f(few, X0, 1.0, 0.0))
        ev.append(dict(e="fix", v=[[obs(v, 16, 22) for v in p] for p in fix[0]]))
        base, disp = pts(f(few, X0, 1.0, 1.0)), pts(f(few, X0 + DX, 1.0, 1.0))
        r = (disp - base) / DX
        dev = np.abs(r - np.median(r, axis=0, keepdims=True)).max(axis=(1, 2))
        ev.append(dict(e="disp", v=[[obs(v, 16, 20) for v in p] for p in r[int(np.argmax(dev))]]))
        mo = pts(f(keys, X0, 0.0, 1.0))
        inc = np.diff(mo, axis=1) if path else mo - np.asarray(x0, np.float64).reshape(1, 1, m)
        if repl:
            inc = inc[:, :-1]
        ev.append(dict(e="mom", m=[[moments.entry(inc[:, p, i]) for i in range(m)] for p in range(inc.shape[1])],
                       r=moments.maxcorr(inc.reshape(N, -1)) if inc.shape[1] else obs(0.0, 12)))
        if kind == "em" and path and j % 2 == 0:
            last = np.asarray(jax.jit(lambda k: run(k, X0, 1.0, 1.0, False))(few[0]), np.float64)
            ev.append(dict(e="same", d=obs(np.max(np.abs(last.ravel() - base[0, -1])) / max(1.0, np.abs(base[0, -1]).max()))
                           if last.shape == shape else moments.BAD))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    vec = lambda z: [rat(int(q)) for q in np.ravel(z)]
    c = dict(kind=kind, ts=rats(ts), n=n, ticks=rats(ticks), a=vec(a), b=vec(b), g=vec(g), sa=vec(sa), sb=vec(sb), h=rat(h), x0=vec(x0), tgt=vec(tgt),
             repl=repl, path=path, R0=R0)
    return dict(c=c, ev=ev, info=dict(kind=kind, ts=[str(t) for t in ts], substeps=n, shape=list(shape), path=path, replace=repl,
                                      a=a.tolist(), b=b.tolist(), g=g.tolist()))


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in ts[:6]:
        add(t, "noise-free point", lambda e: e["e"] == "fix", lambda e: e["v"][-1].__setitem__(-1, [e["v"][-1][-1][0] + 2000, e["v"][-1][-1][1]]))
        add(t, "displacement", lambda e: e["e"] == "disp", lambda e: e["v"][-1].__setitem__(0, [e["v"][-1][0][0] + 2000, e["v"][-1][0][1]]))
        big = lambda e: e["e"] == "mom" and e["m"] and e["m"][0][0]["var"][0] > 1000
        add(t, "variance", big, lambda e: e["m"][0][0].update(var=[e["m"][0][0]["var"][0] * 6 // 5, e["m"][0][0]["var"][1]]))
        add(t, "mean", lambda e: e["e"] == "mom" and e["m"], lambda e: e["m"][0][0].update(mean=[e["m"][0][0]["mean"][0] + 500, 10]))
        add(t, "correlation", lambda e: e["e"] == "mom", lambda e: e.update(r=[6554, 16]))
    return out
