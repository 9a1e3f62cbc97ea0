import _path  # noqa
import math
from fractions import Fraction as Fr
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, tracecheck as tc
from lib.obs import obs, obss, rat, rats

COVS = [[[2, 0], [0, 1]], [[Fr(1, 2), 0], [0, 4]], [[2, 1], [1, 1]], [[1, Fr(-1, 2)], [Fr(-1, 2), Fr(3, 4)]], [[5, 2], [2, 1]]]


def model(rng, j):
    """A model with rational precision; the first ones keep the class's own prior."""
    from fbs.data.bayesian import Crescent
    psi = Fr(int(rng.choice([1, 2, -1, 4])), int(rng.choice([1, 2])))
    kxi = int(rng.integers(-2, 3))
    own = j % 2 == 0
    d = Crescent(10, psi=float(psi), xi=2.0 ** kxi) if j % 5 else Crescent()
    if not j % 5:
        psi, kxi = Fr(1), 0
    m, cov = [Fr(0), Fr(0)], COVS[0]
    if not own:
        m, cov = [Fr(int(z), 2) for z in rng.integers(-3, 4, 2)], COVS[int(rng.integers(len(COVS)))]
        d.m, d.cov = jnp.asarray([float(z) for z in m]), jnp.asarray([[float(z) for z in r] for r in cov])
        d.cov_is_diag = cov[0][1] == 0
    det = Fr(cov[0][0] * cov[1][1] - cov[0][1] * cov[1][0])
    icov = [[Fr(cov[1][1]) / det, -Fr(cov[0][1]) / det], [-Fr(cov[1][0]) / det, Fr(cov[0][0]) / det]]
    c = dict(m=rats(m), icov=rats(icov), psi=rat(psi), xi=rat(Fr(2) ** kxi), kxi=kxi, kdet=int(math.log2(det)), unit=8, R0=1)
    return d, c, m, cov, icov, psi, Fr(2) ** kxi, dict(psi=str(psi), xi=2.0 ** kxi, m=[str(z) for z in m], cov=[[str(z) for z in r] for r in cov])


def trace(rng, j, R0):
    d, c, m, cov, icov, psi, xi, info = model(rng, j)
    c["R0"] = R0
    ev = []

    def energy(x, y):
        a = [x[0] - m[0], x[1] - m[1]]
        e = y - (x[1] / psi + (x[0] ** 2 + psi ** 2) / 2)
        return -(sum(icov[i][k] * a[i] * a[k] for i in range(2) for k in range(2)) + e * e / xi) / 2

    def go():
        f = lambda z: jnp.asarray(np.array(z, np.float64), jnp.float32)
        jit = (lambda g: jax.jit(g)) if j % 3 == 1 else (lambda g: g)
        pr, lk, sc = jit(d.log_prior_pdf), jit(d.log_cond_pdf_likelihood), jit(d.score)
        n = 0
        while n < 6:
            x = [Fr(int(z), 2) for z in rng.integers(-5, 6, 2)]
            y = Fr(int(rng.integers(-8, 16)), 2)
            if abs(energy(x, y)) > 300:
                continue
            n += 1
            fx, fy = f([float(z) for z in x]), jnp.float32(float(y))
            ev.append(dict(e="dens", x=rats(x), y=rat(y), prior=rec.q1(pr(fx), 65536), lik=rec.q1(lk(fy, fx), 65536),
                           mean=obs(d.emission(fx, d.psi), 18, 20), score=obss(sc(jnp.hstack([fx, fy])), 16, 20)))
        # the posterior on a grid whose two axes differ in range, number and spacing
        nf, ns = int(rng.integers(5, 13)), int(rng.integers(5, 13))
        while True:
            gf = np.cumsum(rng.integers(1, 9, nf)) - 24
            gs = np.cumsum(rng.integers(1, 9, ns)) - 24
            y = Fr(int(rng.integers(-2, 9)), 2)
            E = np.array([[float(energy((Fr(int(a), 8), Fr(int(b), 8)), y)) for a in gf] for b in gs])
            if E.max() > -40:
                break
        mesh = jnp.dstack(jnp.meshgrid(f(gf / 8), f(gs / 8)))
        p = np.asarray(jit(d.posterior)(mesh, jnp.float32(float(y))), np.float64)
        ev.append(dict(e="post", gf=gf.tolist(), gs=gs.tolist(), p=[rec.quant(r, 4096, 262144) for r in p] if p.shape == (ns, nf) else []))
        if p.shape == (ns, nf):
            top = E.max()
            i0, j0 = np.unravel_index(np.argmax(E), E.shape)
            cand = [(i, k) for i in range(ns) for k in range(nf) if E[i, k] > top - 25]
            for q in rng.permutation(len(cand))[:6]:
                i, k = cand[q]
                dd = math.log(p[i, k]) - math.log(p[i0, j0]) if p[i, k] > 0 and p[i0, j0] > 0 else np.nan
                pt = lambda a, b: rats([Fr(int(gf[b]), 8), Fr(int(gs[a]), 8)])
                ev.append(dict(e="ratio", x=pt(i, k), x0=pt(i0, j0), y=rat(y), d=rec.q1(dd, 65536)))
        N = R0 * R0
        xs, ys = [np.asarray(z, np.float64) for z in d.sampler(jax.random.PRNGKey(int(rng.integers(2 ** 30))), N)]
        ok = xs.shape == (N, 2) and ys.shape == (N,)
        xy = np.random.default_rng(0).normal(size=(3, 3))
        u = [np.asarray(z, np.float64) for z in d.unpack(xy)]
        ev.append(dict(e="shape", ok=bool(ok and np.array_equal(u[0], xy[:, :2]) and np.array_equal(u[1], xy[:, 2]))))
        if not ok:
            return
        # decorrelate with the exact regression of the first coordinate on the second
        b = float(Fr(cov[0][1]) / Fr(cov[1][1]))
        z0, z1 = (xs[:, 0] - float(m[0])) - b * (xs[:, 1] - float(m[1])), xs[:, 1] - float(m[1])
        wv = [Fr(cov[0][0]) - Fr(cov[0][1]) ** 2 / Fr(cov[1][1]), Fr(cov[1][1])]
        r = ys - (xs[:, 1] / float(psi) + 0.5 * (xs[:, 0] ** 2 + float(psi) ** 2))
        ev.append(dict(e="sample", wv=rats(wv), phi=[moments.entry(z0), moments.entry(z1)], corr=moments.maxcorr(np.stack([z0, z1], 1)),
                       noise=moments.entry(r), indep=moments.maxcorr(np.stack([z0, z1, r], 1))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=info)


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in ts[:5]:
        add(t, "prior", lambda e: e["e"] == "dens", lambda e: e.update(prior=e["prior"] + 60))
        add(t, "likelihood", lambda e: e["e"] == "dens", lambda e: e.update(lik=e["lik"] - 60 - abs(e["lik"]) // 10000))
        add(t, "score", lambda e: e["e"] == "dens", lambda e: e["score"].__setitem__(2, [e["score"][2][0] + 100, e["score"][2][1]]))
        add(t, "integral", lambda e: e["e"] == "post", lambda e: e.update(p=[[v * 11 // 10 for v in r] for r in e["p"]]))
        add(t, "ratio", lambda e: e["e"] == "ratio", lambda e: e.update(d=e["d"] - 100 - abs(e["d"]) // 1000))
        add(t, "noise", lambda e: e["e"] == "sample", lambda e: e["noise"].update(var=[e["noise"]["var"][0] * 5 // 4, e["noise"]["var"][1]]))
    return out


def body(c):
    r = tlc.check("CrescentMC", "SPECIFICATION Spec\nCONSTANTS XS={0,1,2,3,4} PSIS={1,2} XIS={1,4}\nINVARIANTS Grad\nCHECK_DEADLOCK FALSE\n", workers=8)
    c.tlc(r, "CrescentMC")
    import fbs.data.bayesian  # noqa
    rng = np.random.default_rng(c.seed + 24)
    R0, m = (400, 10) if c.thorough else (160, 1)
    ts = [trace(rng, j, R0) for j in range(20 * m)]
    tc.validate(c, "CrescentTrace", ts, canaries(ts), timeout=1800)


report.main("C24", body)
