import _path  # noqa
import math
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, gpexp, tracecheck as tc
from lib.obs import obs

LIM = 2 ** 20


def fx(x, U=11):
    x = np.asarray(x, np.float64)
    x = np.where(np.isfinite(x), x, 1e9)
    return np.clip(np.round(x * 2.0 ** U), -LIM, LIM).astype(int).tolist()


def noise_time(sde, r):
    """The noise time at which the squared factor is r."""
    L = -math.log(r)
    return L if sde == "const" else (-0.02 + math.sqrt(0.0004 + 4 * 1.99 * L)) / (2 * 1.99)


def b2(sde, tau):
    return 0.02 + 3.98 * tau if sde == "lin" else 1.0


class Seen:
    """Probes the callbacks of one run of a script."""

    def __init__(self, run, c, R0, seed):
        self.run, self.c, self.R0, self.d, self.sde, self.U = run, c, R0, c["d"], c["sde"], c["U"]
        self.key = jax.random.PRNGKey(seed)
        self.rng = np.random.default_rng(seed)
        self.ev = []

    def nextkey(self):
        self.key, k = jax.random.split(self.key)
        return k

    def grid(self, ts):
        ts = np.asarray(ts, np.float64)
        K = len(ts) - 1
        self.dt = 1.0 / max(K, 1)
        self.ev.append(dict(e="grid", K=K, dev=fx(ts - np.arange(K + 1) / max(K, 1), 14)))

    def noise(self, z):
        z = np.asarray(z, np.float64)
        self.ev.append(dict(e="noise", m=[moments.entry(z[:, j]) for j in range(z.shape[1])], corr=moments.maxcorr(z)))

    def dens(self, what, logp, x, mean, var):
        """logp: density of the first argument; mean and var what it should be."""
        n = len(mean)
        H = np.asarray(jax.hessian(logp)(jnp.asarray(mean, jnp.float32)), np.float64) * -var
        g = np.asarray(jax.grad(logp)(jnp.asarray(mean, jnp.float32)), np.float64) * math.sqrt(var)
        v = float(logp(jnp.asarray(mean, jnp.float32))) + 0.5 * n * math.log(2 * math.pi * var)
        self.ev.append(dict(e="dens", what=what, hd=[obs(h) for h in np.diag(H)], ho=obs(np.max(np.abs(H - np.diag(np.diag(H))), initial=0)),
                            g=obs(np.max(np.abs(g))), v=obs(v)))

    def dynamics(self, trs, lik, tdens, r, sb=None):
        """Callbacks of the joint model: (u rows, v, t, key), (v, u rows, v_prev, t), (u, u rows, v, t)."""
        d, dt = self.d, self.dt
        tau = noise_time(self.sde, r) if sb is None else r
        t = jnp.float32(1.0 - tau)
        var = dt * (b2(self.sde, tau) if sb is None else 1.0)
        k = self.nextkey()
        E = np.concatenate([np.zeros((1, d)), np.eye(d)]).astype(np.float32)
        z0 = jnp.zeros(d, jnp.float32)

        def mean_u(u, v):      # up to the noise, which is the same for all calls of one shape
            return np.asarray(trs(jnp.asarray(np.tile(u, (2, 1)), jnp.float32), jnp.asarray(v, jnp.float32), t, k), np.float64)[0] - u
        base = mean_u(E[0], E[0])
        A = np.zeros((2 * d, 2 * d))
        for j in range(d):
            A[:d, j] = (mean_u(E[j + 1], E[0]) - base) / dt
            A[:d, d + j] = (mean_u(E[0], E[j + 1]) - base) / dt
        gv = lambda v, u, vp: jax.grad(lambda q: lik(q, u[None], vp, t)[0])(v)

        def drift_v(u, vp):
            return np.asarray(gv(jnp.asarray(vp), jnp.asarray(u), jnp.asarray(vp)), np.float64) * var / dt
        offv = drift_v(E[0], E[0])
        for j in range(d):
            A[d:, j] = drift_v(E[j + 1], E[0]) - offv
            A[d:, d + j] = drift_v(E[0], E[j + 1]) - offv
        off = np.concatenate([np.zeros(d), offv])
        if sb is None:
            self.ev.append(dict(e="drift", how="sampler, likelihood", r=int(round(r * 2048)), tau=int(round(tau * 2048)), A=fx(A, self.U), off=fx(off, self.U)))
            m, vel = np.zeros(2 * d), np.zeros(2 * d)
        else:
            mean, cov, f = sb
            m, S = np.asarray(mean(tau), np.float64), np.asarray(cov(tau), np.float64)
            f0 = np.asarray(f(jnp.zeros(2 * d), tau), np.float64)
            Af = np.stack([np.asarray(f(jnp.eye(2 * d)[j], tau), np.float64) - f0 for j in range(2 * d)], axis=1)
            vel = np.asarray(f(jnp.asarray(m, jnp.float32), tau), np.float64)
            res = A @ m + off + vel
            res[:d] = 0      # by the noise test below
            self.ev.append(dict(e="drift", how="sampler, likelihood", A=fx(A, self.U), Af=fx(Af, self.U), S=fx(S, self.U), off=fx(res, self.U)))
        # noise around the exact mean
        R0 = self.R0
        u, v = self.rng.normal(size=d), self.rng.normal(size=d)
        step = dt * (A @ (np.concatenate([u, v]) - m) - vel)
        us = np.asarray(trs(jnp.asarray(np.tile(u, (R0 * R0, 1)), jnp.float32), jnp.asarray(v, jnp.float32), t, self.nextkey()), np.float64)
        self.noise((us - u - step[:d]) / math.sqrt(var))
        up, vp = jnp.asarray(u[None], jnp.float32), jnp.asarray(v, jnp.float32)
        self.dens("likelihood", lambda q: lik(q, up, vp, t)[0], v, v + step[d:], var)
        if tdens is not None:
            self.dens("transition", lambda q: tdens(q, up, vp, t)[0], u, u + step[:d], var)

    def ref(self, f, S=None, m=None):
        d, n = self.d, self.R0 * self.R0
        k = self.nextkey()
        few = [np.asarray(f(k, jnp.asarray(v, jnp.float32), 2), np.float64) for v in np.concatenate([np.zeros((1, d)), np.eye(d)])]
        G = np.stack([(z - few[0]).mean(axis=0) for z in few[1:]], axis=1)      # the noise is the same
        x = [np.asarray(f(k, jnp.zeros(d, jnp.float32), n), np.float64)]
        e = dict(e="ref", G=fx(G, self.U), C=fx(np.cov(x[0], rowvar=False), self.U), mean=fx(x[0].mean(axis=0), self.U),
                 exp=fx(np.zeros(d) if m is None else m[:d] - G @ m[d:], self.U))
        if S is not None:
            e["S"] = fx(S, self.U)
        self.ev.append(e)

    def fwd(self, f, unpack, both):
        d = self.d
        k = self.nextkey()
        x0, y0 = self.rng.normal(size=d), self.rng.normal(size=d)
        a = lambda z: jnp.asarray(z, jnp.float32)
        if both:
            run = lambda x, y: [np.asarray(z, np.float64) for z in unpack(f(k, a(x), a(y)))]
        else:
            run = lambda x, y: [np.zeros((1, d)) + x, np.asarray(f(k, a(y)), np.float64)]
        p, q, w = run(x0, y0), run(x0 + 8, y0), run(x0, y0 + 8)
        fac = (list((q[0][-1] - p[0][-1]) / 8) if both else []) + list((w[1][-1] - p[1][-1]) / 8)
        cross = max(np.max(np.abs(q[1] - p[1])), np.max(np.abs(w[0] - p[0]))) / 8
        first = all(z.shape[1:] == (d,) for z in p) and np.allclose(p[0][0], x0, atol=1e-5) and np.allclose(p[1][0], y0, atol=1e-5)
        self.ev.append(dict(e="fwd", first=bool(first), cross=fx(cross), f=fx(fac)))

    def forward(self, run, f, fwd, unpack):
        """The SDE of every forward simulation is the bridge's, its grid the sampler's."""
        d, ok, xy, dim = self.d, 0., 0., True
        if fwd is not None:
            x0, y0 = self.rng.normal(size=(2, d))
            p = [np.asarray(z) for z in unpack(fwd(self.nextkey(), jnp.asarray(x0, jnp.float32), jnp.asarray(y0, jnp.float32)))]
            xy = max(np.max(np.abs(p[0][0] - x0)), np.max(np.abs(p[1][0] - y0)))      # the stand-in's path is constant
        calls = run.calls["euler_maruyama"]
        for a in calls:
            self.grid(a["ts"])
            dim = dim and a["x0"].shape[-1] == 2 * d and bool(a["return_path"])
            for tau in (0., 0.3, 0.9):
                z = jnp.asarray(self.rng.normal(size=2 * d), jnp.float32)
                ok = max(ok, np.max(np.abs(np.asarray(a["drift"](z, tau)) - np.asarray(f(z, tau)))), abs(float(a["dispersion"](tau)) - 1))
        self.ev.append(dict(e="forward", sde=fx(ok, 14), start=fx(xy, 14), dim=bool(dim), n=len(calls)))

    def savedfile(self, y0):
        s = next(iter(self.run.saved.values()))
        self.mu, self.C = np.asarray(s["gp_mean"], np.float64), np.asarray(s["gp_cov"], np.float64)
        self.ev.append(dict(e="saved", C=fx(self.C), mu=fx(self.mu), y=fx(y0)))

    def opts(self, got, want):
        self.ev.append(dict(e="opts", got=[str(z) for z in got], want=[str(z) for z in want]))


RS = [0.75, 0.5625, 0.49]


def joint(rng, script, sde, d, dyn, R0, seed):
    n = int(rng.integers(2, 6))
    name = script.split("/")[1]
    argv, want = ["--d", d, "--nparticles", n, "--nsamples", 1, "--id", int(rng.integers(1000)), "--sde", sde], []
    c = dict(kind="joint", d=d, sde=sde, U=11, lam=[1, 1], R0=R0, need=["grid", "ref", "fwd", "saved", "opts"] + (["drift", "noise", "dens"] if dyn else []))
    eb = ef = mg = delta = None
    if name == "gp_gibbs.py":
        eb, ef, mg = [(True, False, True), (False, True, False), (True, True, False), (False, False, True)][(2 * (sde == "lin") + dyn) % 4]
        argv += ["--explicit_backward"] * eb + ["--explicit_final"] * ef + ["--marg"] * mg
    if name == "gp_pmcmc.py":
        delta = [0.03, 0.2, 0.5][int(rng.integers(3))]
        argv += ["--delta", delta]
    ev = []

    def go():
        run = gpexp.Run(script, argv)
        s = Seen(run, c, R0, seed)
        s.ev = ev
        bf = run.last("bootstrap_filter")
        main = bf
        if name == "gp_gibbs.py":
            main = run.last("gibbs_kernel")
            s.opts([main["nparticles"], main["explicit_backward"], main["explicit_final"], main["marg_y"], bf["nparticles"], bf["log"]],
                   [n, eb, ef, mg, n, True])
            s.fwd(main["fwd_sampler"], main["unpack"], True)
        elif name == "gp_pmcmc.py":
            main = run.last("pmcmc_kernel")
            s.opts([main["nparticles"], float(main["delta"]), bf["nparticles"], bf["log"]], [n, float(delta), n, True])
            s.fwd(main["fwd_ys_sampler"], None, False)
        else:
            s.opts([bf["nparticles"], bf["log"], bf["return_last"]], [n, True, True])
            s.fwd(run.ns["fwd_ys_sampler"], None, False) if "fwd_ys_sampler" in run.ns else c["need"].remove("fwd")
        s.grid(main["ts"])
        s.ref(main["ref_sampler"] if "ref_sampler" in main else bf["init_sampler"])
        if dyn:
            td = run.last("bootstrap_backward_smoother")["transition_logpdf"] if "bootstrap_backward_smoother" in run.calls else None
            for r in RS[:2]:
                s.dynamics(main["transition_sampler"], main.get("likelihood_logpdf") or main["measurement_cond_pdf"], main.get("transition_logpdf"), r)
            if main is not bf:      # the filter that initialises the chain sees the same model
                s.dynamics(bf["transition_sampler"], bf["measurement_cond_pdf"], td, RS[2])
                s.ref(bf["init_sampler"])
        s.savedfile(run.ns["y0"]) if "y0" in run.ns else c["need"].remove("saved")
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def starts(rng, script, fn, x0, d, R0, seed):
    """Where the forward bridges start."""
    argv = ["--d", d, "--nparticles", 2, "--nsamples", 1, "--id", int(rng.integers(1000))] + (["--x0", x0] if "filter" in script else [])
    c = dict(kind="starts", d=d, sde="sb", U=14, lam=[1, 10], R0=R0, need=["starts"])
    ev = []

    def go():
        run = gpexp.Run(script, argv)
        f = run.ns.get(fn)
        if f is None or "y0" not in run.ns:
            c["need"].remove("starts")
            return
        f = getattr(f, "__wrapped__", f)

        def z0(k):
            f(k)
            return run.last("euler_maruyama")["x0"]
        z = jax.jit(jax.vmap(z0))(jax.random.split(jax.random.PRNGKey(seed), R0 * R0))
        z = np.asarray(z, np.float64)
        s = next(iter(run.saved.values()))
        C, mu = (s["gp_cov"], s["gp_mean"]) if x0 == "proper" else (np.eye(d), np.zeros(d))
        ev.append(dict(e="starts", S=fx(np.cov(z[:, :d], rowvar=False), 14), mean=fx(z[:, :d].mean(axis=0), 14), C=fx(C, 14), mu=fx(mu, 14),
                       y=fx(np.max(np.abs(z[:, d:] - np.asarray(run.ns["y0"]))), 14)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def q20(x):
    return np.clip(np.round(np.asarray(x, np.float64) * 2 ** 16), -2 ** 30, 2 ** 30).astype(int).tolist()


def uni(k):
    return jax.random.uniform(k)


def flows(rng, script, N, seed):
    """How results travel: the stand-ins label what they are given and return."""
    name = script.split("/")[1]
    d = 6
    n = int(rng.integers(3, 6))
    argv = ["--d", d, "--nparticles", n, "--nsamples", N, "--id", int(rng.integers(1000))]
    sde = "sb"
    if "toy" in script:
        sde = ["const", "lin"][int(rng.integers(2))]
        argv += ["--sde", sde]
    pick = name in ("gp_filter.py", "filter.py", "gp_twisted.py")
    chains = 1
    if name in ("gp_gibbs.py", "gp_pmcmc.py"):
        chains = int(rng.integers(2, 5))
        argv += ["--nchains", chains]
    c = dict(kind="flow", d=d, sde=sde, U=11, lam=[1, 1], R0=int(math.isqrt(N)), need=["pick"] if pick else ["chain"])

    def em(a):
        K = a["ts"].shape[0] - 1
        path = a["x0"] + jnp.arange(K + 1.)[:, None]
        return path if a["return_path"] else path[-1]

    def row(*cols):      # a state whose entries are labels
        return jnp.stack(list(cols) + [jnp.zeros(())] * (d - len(cols)))

    def bf(a):
        u = jax.vmap(lambda i: row(i, a["vs"][0][0], a["vs"][-1][0], uni(a["key"]), a["vs"][-1][0], a["vs"][-1][0]))(jnp.arange(a["nparticles"] * 1.))
        return (u if a["return_last"] else jnp.zeros((a["ts"].shape[0], *u.shape)) + u), a["vs"][0][0]

    def smoother(a):
        return a["filter_us"][:, 0] + 7

    def gibbs(a):
        x = row(a["x0"][0] + 1, a["us_star"][0][0], a["bs_star"][0] * 1., uni(a["key"]), a["y0"][0], a["x0"][5])
        us = a["us_star"] + 10
        b = a["bs_star"] + 1
        return x, us, b, b == b

    def pmcmc(a):
        from fbs.samplers.common import MCMCState
        x = row(a["uT"][0] + 1, a["log_ell"], a["ys"][-1][0], uni(a["key"]), a["y0"][0], a["uT"][5])
        return x, a["log_ell"] + 10, a["ys"] + 1, MCMCState(*[jnp.zeros(()) for _ in MCMCState._fields])

    def tw(a):
        w = jnp.arange(1., a["nparticles"] + 1)
        u = jax.vmap(lambda i: row(i, a["y"][0], a["y"][0], uni(a["key"])))(jnp.arange(a["nparticles"] * 1.))
        return u, jnp.log(w / jnp.sum(w))
    ev = []

    def go():
        run = gpexp.Run(script, argv, fakes=dict(euler_maruyama=em, bootstrap_filter=bf, bootstrap_backward_smoother=smoother,
                                                 gibbs_kernel=gibbs, pmcmc_kernel=pmcmc, twisted_smc=tw))
        x = np.asarray(next(iter(run.saved.values()))["samples"], np.float64)
        ev.append(dict(e="opts", got=[str(z) for z in x.shape], want=[str(z) for z in ((chains, N, d) if name in ("gp_gibbs.py", "gp_pmcmc.py") else (N, d))]))
        y = np.asarray(run.ns["y0"], np.float64) if "y0" in run.ns else None
        if pick:
            slot = np.round(x[:, 0]).astype(int)
            e = dict(e="pick", n=n, N=N, counts=[int(np.sum(slot == i)) for i in range(n)], w=list(range(1, n + 1)) if "twisted" in name else [1] * n,
                     keys=len(np.unique(x[:, 3])), dev=0 if y is None else fx(np.max(np.abs(x[:, 2] - y[0])), 14))
            ev.append(e)
            if name == "gp_filter.py" and y is not None:     # the end of the path given to the filter
                r2 = math.exp(-1) if sde == "const" else math.exp(-(0.02 + 3.98 / 2))
                ev.append(dict(e="noise", m=[moments.entry((x[:, 1] - math.sqrt(r2) * y[0]) / math.sqrt(1 - r2))], corr=obs(0.)))
            if name == "filter.py" and y is not None:
                K = run.last("bootstrap_filter")["ts"].shape[0] - 1
                ev.append(dict(e="pathend", dev=fx(np.max(np.abs(x[:, 1] - y[0] - K)), 10)))
        else:
            x = x.reshape(chains, N, d)
            ev.append(dict(e="chain", kernel="gibbs" if "gibbs" in name else "pmcmc", steps=[[q20(np.diff(ch[:, :3], axis=0)[i]) for i in range(N - 1)] for ch in x],
                           first=[q20(ch[0, :3]) for ch in x], dev=0 if y is None else fx(np.max(np.abs(x[:, :, 4:] - y[0])), 14), rows=N * chains, keys=len(np.unique(x[:, :, 3]))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def bridge(rng, script, d, R0, seed):
    n = int(rng.integers(2, 6))
    name = script.split("/")[1]
    eb = bool(d % 2)
    x0 = ["proper", "heuristic"][int(rng.integers(2))]
    c = dict(kind="joint", d=d, sde="sb", U=10, lam=[1, 10], R0=R0, need=["grid", "ref", "saved", "opts", "drift", "noise", "dens", "forward"])
    argv0 = ["--d", d, "--nparticles", n, "--nsamples", 1] + (["--explicit_backward"] * eb if name == "gibbs.py" else ["--x0", x0])
    ev, argv = [], argv0

    def go():
        nonlocal argv
        for _ in range(30):      # a well-conditioned reference
            argv = argv0 + ["--id", int(rng.integers(1000))]
            run = gpexp.Run(script, argv)
            g = run.last("make_gaussian_bw_sb")
            S1 = np.asarray(g["cov1"], np.float64)
            if np.linalg.eigvalsh(S1)[0] > 0.25 and np.max(np.abs(S1)) < 20:
                break
        s = Seen(run, c, R0, seed)
        s.ev = ev
        bf = run.last("bootstrap_filter")
        main = run.last("gibbs_kernel") if name == "gibbs.py" else bf
        s.opts([bf["nparticles"], bf["log"]] + ([main["nparticles"], main["explicit_backward"], main["explicit_final"], main["marg_y"]] if name == "gibbs.py" else []),
               [n, True] + ([n, eb, False, False] if name == "gibbs.py" else []))
        s.grid(main["ts"])
        s.ref(bf["init_sampler"], S1, np.asarray(g["mean1"], np.float64))
        s.forward(run, g["returned"][2], main.get("fwd_sampler"), main.get("unpack"))
        td = run.last("bootstrap_backward_smoother")["transition_logpdf"] if "bootstrap_backward_smoother" in run.calls else None
        for tau in (0.5, 0.75):
            s.dynamics(main["transition_sampler"], main.get("likelihood_logpdf") or main["measurement_cond_pdf"], main.get("transition_logpdf"), tau, g["returned"])
        if main is not bf:
            s.dynamics(bf["transition_sampler"], bf["measurement_cond_pdf"], td, 0.625, g["returned"])
        s.savedfile(run.ns["y0"]) if "y0" in run.ns else c["need"].remove("saved")
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def csgm(rng, sde, d, R0, seed):
    argv = ["--d", d, "--nsamples", R0 * R0, "--id", int(rng.integers(1000)), "--sde", sde]
    c = dict(kind="x", d=d, sde=sde, U=11, lam=[1, 1], R0=R0, need=["grid", "saved", "samples", "cdrift"])
    ev = []

    def go():
        run = gpexp.Run("toy/gp_csgm.py", argv)
        s = Seen(run, c, R0, seed)
        s.ev = ev
        em = run.last("euler_maruyama")
        s.grid(em["ts"])
        s.savedfile(run.ns["y0"]) if "y0" in run.ns else c["need"].remove("saved")
        saved = next(iter(run.saved.values()))
        x = np.asarray(saved["samples"], np.float64)
        C, mu = np.asarray(saved["gp_cov"], np.float64), np.asarray(saved["gp_mean"], np.float64)
        ev.append(dict(e="samples", S=fx(np.cov(x, rowvar=False)), mean=fx(x.mean(axis=0)), C=fx(C), mu=fx(mu)))
        for r, f in ((0.5625, 0.75), (0.49, 0.7)):
            tau = noise_time(sde, r)
            dr = lambda z: np.asarray(em["drift"](jnp.asarray(z, jnp.float32), jnp.float32(1 - tau)), np.float64)
            off = dr(np.zeros(d))
            A = np.stack([dr(e) - off for e in np.eye(d)], axis=1)
            ev.append(dict(e="cdrift", r=int(round(r * 2048)), f=int(round(f * 2048)), tau=int(round(tau * 2048)), A=fx(A), off=fx(off), C=fx(C), mu=fx(mu)))
            z = float(em["dispersion"](jnp.float32(1 - tau)))
            ev.append(dict(e="opts", got=["dispersion", str(abs(z * z - b2(sde, tau)) < 1e-3)], want=["dispersion", "True"]))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script="toy/gp_csgm.py", argv=[str(a) for a in argv]))


def twisted(rng, sde, d, R0, seed):
    n = R0 * R0
    argv = ["--d", d, "--nsamples", 1, "--nparticles", n, "--id", int(rng.integers(1000)), "--sde", sde]
    c = dict(kind="x", d=d, sde=sde, U=11, lam=[1, 1], R0=R0, need=["grid", "saved", "init", "opts", "drift", "dens", "twist", "prop", "noise"])
    ev = []

    def go():
        run = gpexp.Run("toy/gp_twisted.py", argv)
        s = Seen(run, c, R0, seed)
        s.ev = ev
        a = run.last("twisted_smc")
        s.opts([a["nparticles"]], [n])
        s.grid(a["ts"])
        dt = s.dt
        s.savedfile(run.ns["y0"]) if "y0" in run.ns else c["need"].remove("saved")
        x = np.asarray(a["init_sampler"](s.nextkey(), n), np.float64)
        ev.append(dict(e="init", S=fx(np.cov(x, rowvar=False)), mean=fx(x.mean(axis=0))))
        F = lambda z: jnp.asarray(z, jnp.float32)
        for r in RS:
            tau = noise_time(sde, r)
            t, var = jnp.float32(1 - tau), dt * b2(sde, tau)
            lp = lambda u, up: a["transition_logpdf"](F(u)[None], F(up)[None], t)[0]
            drift = lambda up: np.asarray(jax.grad(lambda u: lp(u, up))(F(up)), np.float64) * var / dt
            off = drift(np.zeros(d))
            A = np.stack([drift(e) - off for e in np.eye(d)], axis=1)
            h = dict(r=int(round(r * 2048)), tau=int(round(tau * 2048)))
            ev.append(dict(e="drift", A=fx(A), off=fx(off), **h))
            up, y = s.rng.normal(size=d), s.rng.normal(size=d)
            s.dens("transition", lambda u: lp(u, up), up, up + dt * (A @ up), var)
            # the twisting density: Gaussian in y around one more step
            tw = lambda y, u: a["twisting_logpdf"](F(y), F(u)[None], t)[0]
            lam = 1.0
            yh = lambda u: np.asarray(jax.grad(lambda q: tw(q, u))(F(np.zeros(d))), np.float64) * lam
            b = yh(np.zeros(d))
            W = np.stack([(yh(64 * e) - b) / 64 for e in np.eye(d)], axis=1)
            H = np.asarray(jax.hessian(lambda q: tw(q, up))(F(y)), np.float64)
            v = float(tw(F(yh(up)), up)) + 0.5 * d * math.log(2 * math.pi * lam)
            ev.append(dict(e="twist", A=fx((W - np.eye(d)) / dt), off=fx(b / dt), h=[obs(-z) for z in np.diag(H)], v=obs(v), **h))
            # the proposal
            k = s.nextkey()
            q = np.asarray(a["twisting_prop_sampler"](k, F(np.tile(up, (n, 1))), t, F(y)), np.float64)
            g = np.asarray(jax.grad(lambda u: tw(y, u))(F(up)), np.float64)
            pl = lambda u: a["twisting_prop_logpdf"](F(u)[None], F(up)[None], t, F(y))[0]
            pd = np.asarray(jax.grad(pl)(F(up)), np.float64) * var / dt      # drift of the proposal by its density
            ev.append(dict(e="prop", p=fx(pd - A @ up), g=fx(g), **h))
            s.noise((q - up - dt * pd) / math.sqrt(var))
            s.dens("proposal", pl, up, up + dt * pd, var)
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script="toy/gp_twisted.py", argv=[str(a) for a in argv]))


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    up = lambda k, m: lambda e: e.update({k: [[int(z * m) for z in row] for row in e[k]]})
    for t in ts:
        add(t, "drift", lambda e: e["e"] == "drift", up("A", 1.2))
        add(t, "reference covariance", lambda e: e["e"] == "ref", up("C", 1.2))
        add(t, "regression", lambda e: e["e"] == "ref", up("G", -1))
        add(t, "posterior", lambda e: e["e"] == "saved", up("C", 1.1))
        add(t, "initial draws", lambda e: e["e"] in ("init", "samples", "starts"), up("S", 1.2))
        add(t, "noise", lambda e: e["e"] == "noise", lambda e: e["m"][0].update(var=obs(1.5)))
        add(t, "slots", lambda e: e["e"] == "pick", lambda e: e.update(counts=[e["N"]] + [0] * (e["n"] - 1)))
        add(t, "chain", lambda e: e["e"] == "chain", lambda e: e["steps"][-1][-1].__setitem__(1, 0))
        add(t, "proposal", lambda e: e["e"] == "prop", lambda e: e.update(p=[-z for z in e["p"]]))
    return out


def body(c):
    r = tlc.check("GPModelMC", "SPECIFICATION Spec\nINVARIANTS Flow Total Posterior\nCHECK_DEADLOCK FALSE\n", workers=8)
    c.tlc(r, "GPModelMC: the relations imply the reverse flow, total covariance and Bayes' rule")
    rng = np.random.default_rng(c.seed * 7919 + 30)
    R0 = 300 if c.thorough else 160
    ts = []
    sd = lambda: int(rng.integers(2 ** 30))
    for script in ("toy/gp_filter.py", "toy/gp_gibbs.py", "toy/gp_pmcmc.py"):
        for sde in ("const", "lin"):
            ts.append(joint(rng, script, sde, 3 if sde == "lin" else 6, True, R0, sd()))
            ts.append(joint(rng, script, sde, 11, False, 1000, sd()))
            if c.thorough:
                ts += [joint(rng, script, sde, d, True, R0, sd()) for d in (2, 3, 6)]
    for sde in ("const", "lin"):
        ts.append(csgm(rng, sde, 6, 110, sd()))
        ts.append(twisted(rng, sde, 6, R0, sd()))
    for script in ("sb/filter.py", "sb/gibbs.py"):
        ts += [bridge(rng, script, d, R0, sd()) for d in ((2, 3) if not c.thorough else (2, 2, 3, 3, 3))]
    ts += [starts(rng, "sb/filter.py", "conditional_sampler", x0, 31, 700, sd()) for x0 in ("proper", "heuristic")]
    ts.append(starts(rng, "sb/gibbs.py", "gibbs_init", "heuristic", 4, 200, sd()))
    for script in ("toy/gp_filter.py", "toy/gp_twisted.py", "sb/filter.py"):
        ts.append(flows(rng, script, 1024, sd()))
    for script in ("toy/gp_gibbs.py", "toy/gp_pmcmc.py", "sb/gibbs.py"):
        ts.append(flows(rng, script, 5, sd()))
    tc.validate(c, "GPModelTrace", ts, canaries(ts), timeout=1800)
    c.assume("noise levels are those at which the closed form of the squared factor is 3/4, 9/16, 0.49 (checked against the code in C15)")


report.main("C30", body)
