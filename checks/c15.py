import _path  # noqa
from fractions import Fraction as Fr
import math
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, tracecheck as tc
from lib.obs import obs, mobs, rat, rats
from lib.sdeconf import LN2, config, clock, build

def trace(rng, linear, j):
    c, ts = config(rng)
    ts = [t for t in ts if abs(clock(c, t, c["start"])) <= 9]
    ev = []

    def go():
        sde, disc, u = build(c, linear)
        fs = [float(t) for t in ts]
        n = len(fs)
        if j % 3 == 1:        # vectors of times
            F, Q = [np.asarray(z) for z in disc(jnp.asarray(fs[1:]), jnp.asarray(fs[:-1]))]
            F0, Q0 = [np.asarray(z) for z in disc(jnp.asarray(fs[1:]), jnp.float32(fs[0]))]
        elif j % 3 == 2:      # traced scalars
            g = jax.jit(lambda t, s: disc(t, s))
            F, Q = np.asarray([g(fs[k + 1], fs[k]) for k in range(n - 1)]).T
            F0, Q0 = np.asarray([g(fs[k + 1], fs[0]) for k in range(n - 1)]).T
        else:
            F, Q = np.asarray([disc(fs[k + 1], fs[k]) for k in range(n - 1)]).T
            F0, Q0 = np.asarray([disc(fs[k + 1], fs[0]) for k in range(n - 1)]).T
        shape = [(), (2,), (2, 2)][int(rng.integers(3))]
        m0 = rng.choice([-3.0, -1.0, 0.5, 2.0, 4.0], size=shape).astype(np.float32)
        for k in range(1, n):
            e = dict(e="go", t=rat(ts[k]), F=obs(F[k - 1]), Q=obs(Q[k - 1]), F0=obs(F0[k - 1]), Q0=obs(Q0[k - 1]),
                     mean=[], var=[], drift=[], disp=[])
            if sde is not None:
                t = fs[k]
                if hasattr(sde, "mean"):
                    mean = np.asarray(sde.mean(t, fs[0], jnp.asarray(m0)))
                    e["mean"] = [obs(z) for z in (mean / m0).ravel()] if mean.shape == shape else [[2 ** 30, 0]]
                    e["var"] = [obs(sde.variance(t, fs[0]))]
                dr = np.asarray(sde.drift(jnp.asarray(m0), t))
                e["drift"] = [obs(z) for z in (dr / (m0 * u)).ravel()] if dr.shape == shape else [[2 ** 30, 0]]
                e["disp"] = [obs(np.float64(sde.dispersion(t)) ** 2 / (2 * u * float(c["V"])))]
            ev.append(e)
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    cc = {k: (v if isinstance(v, str) else rat(v)) for k, v in c.items()}
    return dict(c=cc, ev=ev, info=dict(sde={k: str(v) for k, v in c.items()}, ts=[str(t) for t in ts], mode=j % 3))


def comp_trace(rng, linear):
    """Arbitrary real coefficients and times."""
    kind = str(rng.choice(["const", "ou", "lin", "exp"]))
    ev, info = [], {}

    def go():
        if kind in ("const", "ou"):
            a, V = -rng.uniform(0.05, 3), rng.uniform(0.1, 1.4)
            b = math.sqrt(-2 * a * V)
            info.update(a=a, b=b)
            sde = linear.StationaryConstLinearSDE(a, b)
        elif kind == "lin":
            t0 = rng.uniform(-1, 2)
            info.update(beta_min=rng.uniform(0.01, 2), beta_max=rng.uniform(0.01, 6), t0=t0, T=t0 + rng.uniform(0.5, 3))
            sde, V = linear.StationaryLinLinearSDE(**info), 1.0
        else:
            a, V = -rng.uniform(0.05, 2), rng.uniform(0.1, 1.4)
            info.update(a=a, b=math.sqrt(-2 * a * V), c=rng.uniform(-1.5, 1.5), z=rng.uniform(-1, 2))
            sde = linear.StationaryExpLinearSDE(**info)
        if kind == "ou":
            d = linear.make_ou_sde(a, b)[0]
            disc = lambda t, s: d(t - s)
        else:
            disc = linear.make_linear_sde(sde)[0]
        for _ in range(4):
            if kind == "lin":
                r, s, t = np.sort(rng.uniform(info["t0"], info["T"], 3)).astype(np.float32)
            else:
                r, s, t = (rng.uniform(-1, 2) + np.cumsum(rng.uniform(0, 1, 3))).astype(np.float32)
            (Ftr, Qtr), (Fts, Qts), (Fsr, Qsr), (F1, Q1) = [[np.float64(z) for z in disc(jnp.float32(x), jnp.float32(y))]
                                                          for x, y in ((t, r), (t, s), (s, r), (s, s))]
            ev.append(dict(e="comp", v=rec.quant([Ftr, Fts, Fsr, Qtr, Qsr, Qts, F1, Q1], 16384, 10 ** 8),
                           fix=rec.q1(V * Ftr ** 2 + Qtr - V, 16384, 10 ** 8), t=[float(r), float(s), float(t)]))
            if kind != "ou":
                x = float(rng.normal()) + 3
                dF = float(jax.grad(lambda y: disc(y, s)[0])(s)) if kind != "lin" or True else 0
                dQ = float(jax.grad(lambda y: disc(y, s)[1])(s))
                dr, g2 = float(sde.drift(x, s)) / x, float(sde.dispersion(s)) ** 2
                ev.append(dict(e="rate", dF=[obs((dF - dr) / max(1, abs(dr)), 16)], dQ=[obs((dQ - g2) / max(1, g2), 16)], t=float(s)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(cls="const", al=[1, 1], V=[1, 1], start=[0, 1]), ev=ev, info=dict(kind=kind, **info))


def lti_trace(rng):
    from fbs.utils import discretise_lti_sde
    fam = str(rng.choice(["nil", "diag"]))
    ri = lambda lo, hi, s: rng.integers(lo, hi, s)
    ev = []
    if fam == "nil":
        d = int(rng.choice([1, 2, 3]))
        A = np.triu(ri(-2, 3, (d, d)), 1)
        p = rng.permutation(d)
        A = A[np.ix_(p, p)]
        if d == 2 and rng.random() < 0.5:
            A = np.array([[1, -1], [1, -1]]) * int(rng.choice([1, 2, -1]))
        L = ri(-1, 3, (d, d))
        G = L @ L.T
        c = dict(fam=fam, A=rats(A.tolist()), G=rats(G.tolist()))
        Af, Gf = A.astype(float), G.astype(float)
        dts = [Fr(int(rng.choice([0, 1, 1, 2, 3])), int(rng.choice([1, 2, 4]))) for _ in range(3)]
    else:
        d = int(rng.choice([1, 2]))
        S = np.array([[1]]) if d == 1 else np.array([[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[2, 1], [1, 1]]][int(rng.integers(3))])
        al = [int(z) for z in rng.choice([1, 2, 1], size=d)]
        L = ri(-1, 3, (d, d))
        G = L @ L.T
        c = dict(fam=fam, S=rats(S.tolist()), al=rats(al), G=rats(G.tolist()))
        Af = -LN2 * S @ np.diag(al) @ np.linalg.inv(S)
        Gf = LN2 * S @ G @ S.T
        dts = [Fr(int(x)) for x in [[0, 1, 1], [1, 1, 0], [2], [1, 1], [1, 1, 1]][int(rng.integers(4 if max(al) > 1 else 5))]]

    def go():
        f = lambda dt: [np.asarray(z) for z in discretise_lti_sde(jnp.asarray(Af, jnp.float32), jnp.asarray(Gf, jnp.float32), float(dt))]
        tot = Fr(0)
        for dt in dts:
            tot += dt
            F, Qm = f(dt)
            F0, Q0 = f(tot)
            ev.append(dict(e="go", dt=rat(dt), F=mobs(F, 18), Q=mobs(Qm, 18), F0=mobs(F0, 18), Q0=mobs(Q0, 18)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(fn="discretise_lti_sde", A=Af.tolist(), G=Gf.tolist(), dts=[str(x) for x in dts]))


def canaries(ts, tl):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    bump = lambda o: [o[0] + max(200, abs(o[0]) // 500), o[1]]
    t = next(t for t in ts if t["c"]["cls"] == "lin" and len(t["ev"]) > 1)
    for k in ("F", "Q", "F0", "Q0"):
        add(t, k, lambda e: e["e"] == "go", lambda e: e.update({k: bump(e[k])}))
    for k in ("mean", "var", "drift", "disp"):
        add(t, k, lambda e: e["e"] == "go", lambda e: e.update({k: [bump(o) for o in e[k]]}))
    t = next((t for t in ts if t["ev"] and t["ev"][0]["e"] == "comp"), None)
    if t:
        for i in (0, 3):
            add(t, "composition %d" % i, lambda e: e["e"] == "comp", lambda e: e["v"].__setitem__(i, e["v"][i] + 40))
        add(t, "fixed point", lambda e: e["e"] == "comp", lambda e: e.update(fix=60))
    t = tl[0]
    add(t, "lti F", lambda e: e["e"] == "go", lambda e: e["F"][0].__setitem__(0, bump(e["F"][0][0])))
    add(t, "lti Q0", lambda e: e["e"] == "go", lambda e: e["Q0"][0].__setitem__(0, bump(e["Q0"][0][0])))
    return out


def body(c):
    r = tlc.check("LinSDEMC", "SPECIFICATION Spec\nCONSTANTS TIMES={0,1,2,3,4} STEPS=%d\nINVARIANTS Composed Stationary Identity Rates\nCHECK_DEADLOCK FALSE\n"
                  % (4 if c.thorough else 3), workers=8)
    c.tlc(r, "LinSDEMC")
    r = tlc.check("LTIMC", "SPECIFICATION Spec\nCONSTANTS STEPS=%d\nINVARIANTS Direct Symmetric\nCHECK_DEADLOCK FALSE\n" % (3 if c.thorough else 2), workers=8)
    c.tlc(r, "LTIMC")
    from fbs.sdes import linear
    rng = np.random.default_rng(c.seed + 15)
    m = 10 if c.thorough else 1
    ts = [trace(rng, linear, j) for j in range(80 * m)] + [comp_trace(rng, linear) for _ in range(40 * m)]
    tl = [lti_trace(rng) for _ in range(40 * m)]
    can = canaries(ts, tl)
    tc.validate(c, "LinSDETrace", ts, [x for x in can if "cls" in x[1]["c"]], timeout=1800)
    tc.validate(c, "LTITrace", tl, [x for x in can if "fam" in x[1]["c"]], timeout=1800)
    c.assume("exact comparison on coefficients and times whose transitions are rational; elsewhere the composition law itself is checked")


report.main("C15", body)
