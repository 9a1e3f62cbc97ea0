import _path  # noqa
import math
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, gpexp, tracecheck as tc
from lib.obs import obs

LIM = 2 ** 20
PC, PCEMA = (-14, 20, 3, 2), (-12, -24, -5, 1)      # stronger coupling of neighbours
P, PEMA, PFWD, PBWD = (-14, 5, 3, 2), (-12, 3, -5, 1), (-10, 7, 2, -1), (-6, -5, 4, 2)
J = np.arange(784)
ODD = (J % 2).astype(int)


def fx(x):
    x = np.asarray(x, np.float64)
    x = np.where(np.isfinite(x), x, 1e9)
    return np.clip(np.round(x * 2048), -LIM, LIM).astype(int).tolist()


def net(key, *a, **kw):
    """Stands for fbs.nn.models.make_st_nn: an affine score of the whole image."""
    def score(x, t, param):
        param = jnp.asarray(param)
        z = jnp.reshape(x, (*x.shape[:-3], 784))
        out = param[0] * z + param[1] * jnp.roll(z, 1, axis=-1) * ODD + param[2] * t + param[3] * jnp.asarray(J % 7, z.dtype)
        return jnp.reshape(out, x.shape)
    return None, None, score


def images(seed, binary):
    rng = np.random.default_rng(seed)
    x = rng.integers(0, 2, (10000, 784)) if binary else rng.random((10000, 784))
    return x.astype(np.float32)


def run(script, argv, X, fakes={}, eager=True, real=(), p=P, pema=PEMA):
    """Runs a script with the stand-ins; keeps the images it shows."""
    import matplotlib.pyplot as plt
    import fbs.nn.models
    shown = {}

    def prepare(d):
        np.savez(d + "/../datasets/mnist.npz", X_test=X)
        q = lambda p: np.asarray(p, np.float32) / 16
        for s in ("const", "lin"):
            np.savez(d + "/checkpoints/mnist_%s_7.npz" % s, param=q(p), ema_param=q(pema))
            np.savez(d + "/checkpoints/sb_mnist_%s_7.npz" % s, param_fwd=q(PFWD), param_bwd=q(PBWD))

    def imsave(f, arr, **kw):
        shown[str(f).split("/")[-1]] = np.asarray(arr, np.float64)
    patches = [(plt, "imsave", imsave), (fbs.nn.models, "make_st_nn", net)]
    if eager:
        patches.append((jax, "jit", lambda f, **kw: f))
    r = gpexp.Run(script, argv, prepare=prepare, patches=patches, fakes=fakes, real=real)
    r.shown = shown
    return r


class Probe:
    def __init__(self, c, seed, ev):
        self.c, self.ev = c, ev
        self.key = jax.random.PRNGKey(seed)
        self.rng = np.random.default_rng(seed)

    def nextkey(self):
        self.key, k = jax.random.split(self.key)
        return k

    def b2(self, tau):
        c = self.c
        return 1.0 if c["sde"] == "const" else 0.02 + (2.49 if c["T"] == 4 else 9.96) * tau

    def grid(self, ts):
        ts = np.asarray(ts, np.float64)
        K = len(ts) - 1
        self.dt = self.c["T"] / 2 / max(K, 1)
        self.ev.append(dict(e="grid", K=K, dev=np.round((ts - np.arange(K + 1) * self.dt) * 2 ** 14).astype(int).tolist()))

    def opts(self, got, want):
        self.ev.append(dict(e="opts", got=[str(z) for z in got], want=[str(z) for z in want]))

    def image(self, saved, base, true, y0):
        """Places of the unobserved pixels, from the labels base + 0, 1, ... in a restored image."""
        s = np.round(np.asarray(saved, np.float64).reshape(-1), 6)
        where = [int(z[0]) if len(z) == 1 else -1 for z in (np.nonzero(s == base + i)[0] for i in range(self.c["nu"]))]
        t = np.asarray(true, np.float64).reshape(-1)
        rest = [j for j in range(784) if j not in set(where)]
        y = np.asarray(y0, np.float64).reshape(-1)
        order = {v: j for j, v in enumerate(t)}
        self.U = np.array(where)
        self.V = np.array([order.get(v, -1) for v in y])
        self.ev.append(dict(e="img", where=where, obs=int(np.sum(np.abs(s[rest] - t[rest]) > 1e-5)),
                            y=int(sorted(self.V.tolist()) != rest)))

    def put(self, u, v):
        x = np.zeros(784)
        x[self.U], x[self.V] = u, v
        return x

    def rows(self, x, where, d):
        """Sampled pixels: around the border of the parts, and others."""
        other = set(self.V.tolist()) if where is self.U else set(self.U.tolist())
        edge = [i for i, j in enumerate(where) if j % 2 and j - 1 in other]
        pick = list(self.rng.permutation(edge)[:10]) + list(self.rng.permutation(len(where))[:30])
        return [[*fx([x[where[i]], x[where[i] - 1]]), int(where[i] % 2), int(where[i] % 7), fx(d[i])] for i in pick]

    def shape(self, z):
        return jnp.asarray(np.asarray(z)[..., None], jnp.float32)

    def density(self, logp, where, x, tau, what):
        """A density of the step, as a function of its first argument (n,)."""
        n, var = len(where), self.dt * self.b2(tau)
        prev = x[where]
        g = jax.grad(logp)
        mean = prev + np.asarray(g(jnp.asarray(prev, jnp.float32)), np.float64) * var
        self.ev.append(dict(e="drift", what=what, tau=fx(tau), rows=self.rows(x, where, (mean - prev) / self.dt)))
        m = jnp.asarray(mean, jnp.float32)
        idx = self.rng.permutation(n)[:4]
        H = [np.asarray(jax.jvp(g, (m,), (jnp.eye(n)[i],))[1], np.float64) * -var for i in idx]
        v = (float(logp(m)) + 0.5 * n * math.log(2 * math.pi * var)) / n
        self.ev.append(dict(e="dens", what=what, hd=[obs(h[i]) for h, i in zip(H, idx)],
                            ho=obs(max(np.max(np.abs(np.delete(h, i)), initial=0) for h, i in zip(H, idx))), v=obs(v)))

    def noise(self, z, tau):
        """z: (n, pixels), mean zero; variance b^2 (1 if tau < 0)."""
        n, m = z.shape
        self.ev.append(dict(e="noise", tau=fx(tau) if tau >= 0 else -1, m=[moments.entry(z)], R0=int(math.isqrt(n * m)), corr=moments.maxcorr(z[:, :8]), Rc=int(math.isqrt(n))))

    def sampler(self, f, tau, where, split, off=True):
        """f(rows of images, key) -> rows of parts."""
        k = self.nextkey()
        x, y = self.rng.normal(size=(2, 784))
        a, b = [np.asarray(f(np.tile(split(z), (2, 1)), z, k), np.float64)[0] for z in (x, y)]
        d = ((a - x[where]) - (b - y[where])) / self.dt
        z = x - y
        self.ev.append(dict(e="lin", tau=fx(tau), rows=[r[:3] + r[4:] for r in self.rows(z, where, d)]))
        cnt = [max(1, int(np.sum(where % 7 == j))) for j in range(7)]
        n = int(min(20000, 43 * 1024 * self.b2(tau) / self.dt / min(cnt) + 2000))
        zero = np.zeros(784)
        s = np.asarray(f(np.zeros((n, len(where))), zero, self.nextkey()), np.float64)
        m = s.mean(axis=0) / self.dt
        self.ev.append(dict(e="off", tau=fx(tau), rows=[[j, fx(m[where % 7 == j].mean())] for j in range(7) if np.sum(where % 7 == j)]))
        self.noise((s - s.mean(axis=0)) / math.sqrt(self.dt), tau)

    def dynamics(self, d, taus, lik=True):
        kw = d["_kw"]
        T = self.c["T"] / 2
        for tau in taus:
            t = jnp.float32(T - tau)
            self.sampler(lambda us, x, k: np.asarray(d["transition_sampler"](self.shape(us), self.shape(x[self.V]), t, k, **kw))[..., 0], tau, self.U, lambda x: x[self.U])
            x = self.rng.normal(size=784)
            u, v = self.shape(x[self.U])[None], self.shape(x[self.V])
            self.density(lambda q: d["likelihood_logpdf"](q[:, None], u, v, t, **kw)[0], self.V, x, tau, "likelihood")
            if "transition_logpdf" in d:
                self.density(lambda q: d["transition_logpdf"](q[:, None], u, v, t, **kw)[0], self.U, x, tau, "transition")

    def fwd(self, path, x0):
        """path(image, key) -> (K + 1, pixels), factor and start."""
        k = self.nextkey()
        a, b = [np.asarray(path(z, k), np.float64).reshape(self.c["K"] + 1, -1) for z in (x0, x0 + 8)]
        self.ev.append(dict(e="fwd", start=int(min(LIM, np.max(np.abs(a[0] - x0)) * 2 ** 14)), f=fx((b[-1] - a[-1]) / 8)))

    def ref(self, f, n=2000):
        z = np.asarray(f(n), np.float64).reshape(n, -1)
        self.ev.append(dict(e="noise", tau=-1, m=[moments.entry(z)], R0=int(math.isqrt(z.size)), corr=moments.maxcorr(z[:, :8]), Rc=int(math.isqrt(n))))
        self.opts(["reference shape", z.shape[1]], ["reference shape", self.c["nu"] if self.c["kind"] != "twisted" else 784])


def setting(rng, script, sde, kind, K, ema=False, rnd=False, rect=None):
    """Common options of a run."""
    task = "supr" if "supr" in script else "inpaint"
    rect = rect or int(rng.integers(9, 13))
    rate = 4 if rng.random() < 0.7 else 7
    nu = rect ** 2 if task == "inpaint" else 784 - 784 // rate ** 2
    sb = "sb_imgs" in script
    c = dict(kind=kind, model="sb" if sb else "diffusion", sde=sde, T=1 if sb else 4, K=K, ema=ema, nu=nu, p=list(P), pema=list(PEMA), pfwd=list(PFWD), pbwd=list(PBWD), need=[])
    argv = ["--sde", sde, "--test_nsteps", K, "--test_seed", int(rng.integers(1000))]
    argv += ["--rect_size", rect] if task == "inpaint" else ["--rate", rate]
    argv += (["--sb_step", 7] if sb else ["--test_epoch", 7]) + ["--test_ema"] * ema + ["--rnd_mask"] * rnd
    return c, argv


def true_of(r, k):
    for f, z in sorted(r.saved.items()):
        if f.endswith("-true.npz") and ("-%d-true" % k) in f:
            return z["test_img"]
    raise FileNotFoundError("no true image saved")


def restored(r, n):
    """The saved array of all restored images."""
    z = [a for f, a in r.saved.items() if f.endswith(".npy") and getattr(a, "ndim", 0) == 4 and a.shape[0] == n]
    return z


def shown(p, r, k, true, y0):
    t = np.asarray(true, np.float64).reshape(28, 28)
    got = {n: [a for f, a in r.shown.items() if f.endswith("-%d-%s.png" % (k, n))] for n in ("true", "corrupt")}
    z = p.put(0, np.asarray(y0).reshape(-1)).reshape(28, 28)
    bad = lambda a, b: 1 if len(a) != 1 or a[0].shape != b.shape else int(np.sum(np.abs(a[0] - b) > 1e-5))
    p.ev.append(dict(e="shown", true=bad(got["true"], t), corrupt=bad(got["corrupt"], z)))


def starts(p, r, inits, calls, N, y0):
    """The three images the bridge's runs start from; a saved array names its start."""
    m = int(math.isqrt(np.size(y0)))
    for what in ("random", "blank", "interp"):
        a = [z for f, z in r.saved.items() if f.endswith("-%s.npy" % what)]
        g = [g for g in range(3) if len(a) == 1 and np.any(np.abs(a[0][-1] - float(calls[(g + 1) * N - 1]["ret"][0][0, 0])) < 1e-6)]
        xs = [np.asarray(c["x0"], np.float64).reshape(-1) for h in g for c in (inits[h * N:(h + 1) * N] if len(inits) == 3 * N else inits[h:h + 1])]
        pick = p.rng.permutation(p.c["nu"])[:40]
        ks = [c["key"] for h in g for c in (inits[h * N:(h + 1) * N] if len(inits) == 3 * N else inits[h:h + 1])]
        again = sum(np.allclose(np.asarray(jax.random.uniform(k, (p.c["nu"], 1))).reshape(-1), x) for k, x in zip(ks, xs))
        p.ev.append(dict(e="start", what=what, runs=len(xs), again=int(again), distinct=len({tuple(x[:4].tolist()) for x in xs}), m=m, rate=28 // m, y=fx(np.reshape(y0, -1)[np.argsort(p.V)]),
                         rows=[[int(p.U[i]) // 28, int(p.U[i]) % 28, *fx(x[i:i + 1])] for x in xs for i in pick],
                         mean=obs(np.mean(xs), 10), sq=obs(np.mean(np.square(xs)), 10), R=int(math.isqrt(sum(map(len, xs))))))


def keyid(k):
    return tuple(np.asarray(k).reshape(-1).tolist())


def diffs(a, b):
    """Whether two arrays differ."""
    a, b = np.asarray(a), np.asarray(b)
    return int(a.shape != b.shape or not np.allclose(a, b, atol=1e-5))


def samplers(rng, script, sde, method, K, X, seed, marg=False, ema=False, rnd=False, init="smoother"):
    """inpainting.py, supr.py and the bridge's supr.py."""
    N, n = 3, int(rng.integers(2, 6))
    c, argv = setting(rng, script, sde, "samplers", K, ema, rnd)
    sb = c["model"] == "sb"
    argv += ["--method", method, "--nparticles", n, "--nsamples", N]
    argv += ["--y0_id", 1] if sb else ["--ny0s", 2, "--init_method", init] + ["--marg"] * marg
    gibbs, filt = "gibbs" in method, method == "filter"
    c["need"] = ["opts", "grid", "img", "shown", "drift", "lin", "off", "noise", "dens", "chain"] + (["fdrift", "start"] if sb else ["fwd"])
    ev = []
    nu = c["nu"]
    base = 10 + np.arange(nu)[:, None] * 1.0
    cnt = dict(init=0, pm=0)

    def ginit(d):
        cnt["init"] += 1
        d["ret"] = jnp.asarray(base + 1000. * cnt["init"]), jnp.full((K + 1, nu, 1), 100. * cnt["init"])
        return d["ret"]

    def gk(d):
        b = d["bs_star"] + 1
        d["ret"] = d["x0"] + 1000, d["us_star"] + 10, b, b == b
        return d["ret"]

    def pm(d):
        from fbs.samplers.common import MCMCState
        cnt["pm"] += 1
        d["ret"] = jnp.asarray(base + 1000. * cnt["pm"]), d["log_ell"] + 10, d["ys"] + 1, MCMCState(*[jnp.zeros(()) for _ in MCMCState._fields])
        return d["ret"]

    def go():
        r = run(script, argv, X, fakes=dict(gibbs_init=ginit, gibbs_kernel=gk, pmcmc_kernel=pm))
        p = Probe(c, seed, ev)
        name = "gibbs_init" if filt else "gibbs_kernel" if gibbs else "pmcmc_kernel"
        calls = r.calls[name]
        per = N if not sb else 3 * N
        nimg = 1 if sb else 2
        p.opts([len(calls)], [per * nimg])
        main = calls[-1]
        k0 = 1
        true = true_of(r, k0)
        S = restored(r, N)
        last = [a for a in S if np.max(np.abs(a[-1].reshape(-1) - 0)) > 0]
        # the array that holds the last call's state
        x_last = main["ret"][0]
        mine = [a for a in last if np.any(np.abs(a[-1] - float(x_last[0, 0])) < 1e-6)]
        p.opts(["arrays with the last state", len(mine)], ["arrays with the last state", 1])
        final = mine[0][-1]
        p.image(final, float(x_last[0, 0]), true, main["y0"])
        shown(p, r, k0, true, main["y0"])
        # chains: consecutive calls of one image (and of one starting sampler)
        links, img, keys, yd = [], 0, set(), 0
        inits = r.calls.get("gibbs_init", [])
        for g in range(nimg * (3 if sb else 1)):
            cs = calls[g * N:(g + 1) * N]
            t = true if sb or g == k0 else true_of(r, g)
            for a in cs:
                keys.add(keyid(a["key"]))
                yd += diffs(a["y0"], cs[0]["y0"])
                yd += 0 if not jax.tree_util.tree_leaves(a["_kw"]) else diffs(np.concatenate([np.ravel(z) for z in jax.tree_util.tree_leaves(a["_kw"])]), np.concatenate([np.ravel(z) for z in jax.tree_util.tree_leaves(cs[0]["_kw"])]))
            tv = np.asarray(t).reshape(-1)
            yd += int(not set(np.asarray(cs[0]["y0"]).reshape(-1).tolist()) <= set(tv.tolist()))
            if gibbs:
                i0 = inits[g]
                keys.add(keyid(i0["key"]))
                yd += diffs(i0["y0"], cs[0]["y0"])
                links.append([diffs(cs[0]["x0"], i0["ret"][0]), diffs(cs[0]["us_star"], i0["ret"][1]), int(np.any(np.asarray(cs[0]["bs_star"]) != 0)),
                              diffs(np.shape(cs[0]["bs_star"]), (K + 1,))])
                for a, b in zip(cs[1:], cs[:-1]):
                    links.append([diffs(a["x0"], b["ret"][0]), diffs(a["us_star"], b["ret"][1]), diffs(a["bs_star"], b["ret"][2])])
            elif not filt:
                y = np.asarray(cs[0]["ys"])
                links.append([int(np.shape(y)[0] != K + 1), diffs(y[0], cs[0]["y0"])])
                for a, b in zip(cs[1:], cs[:-1]):
                    links.append([diffs(a["uT"], b["ret"][0]), diffs(a["log_ell"], b["ret"][1]), diffs(a["ys"], b["ret"][2])])
            arr = [a for a in S if all(np.sum(np.isin(np.round(a[i]), np.round(np.asarray(cs[i]["ret"][0])))) == nu for i in range(N))]
            img += int(len(arr) != 1)
        ncalls = len(calls) + (len(inits) if gibbs else 0)
        ev.append(dict(e="chain", links=links, img=img, keys=len(keys), calls=ncalls, y=yd))
        # options and callbacks
        if gibbs:
            eb, ef = ("eb" in method or sb), ("ef" in method or sb)
            p.opts([main[z] for z in ("nparticles", "explicit_backward", "explicit_final", "marg_y")], [n, eb, ef, marg])
            a = inits[-1]
            p.opts([a["nparticles"], a["method"], a["marg_y"], tuple(a["x0_shape"])], [n, init, marg, (nu, 1)])
            p.grid(a["ts"])
            p.dynamics(a, (0.25,) if sb else (0.75,))
        elif filt:
            p.opts([main["nparticles"], main["method"], main["marg_y"], tuple(main["x0_shape"])], [n, "filter", marg, (nu, 1)])
        else:
            delta = method.split("-")[1] if "-" in method else "None"
            p.opts([main["nparticles"], main["delta"], main["which_u"], main["resampling"].__name__], [n, delta, 0, "stratified"])
            p.ref(lambda m: main["ref_sampler"](p.nextkey(), main["y0"], m))
        p.grid(main["ts"])
        p.dynamics(main, (0.125, 0.4) if sb else (0.5, 1.25))
        if sb:
            x0 = p.rng.normal(size=784)
            starts(p, r, inits if gibbs else calls, calls, N, main["y0"])
            r.calls.pop("euler_maruyama", None)
            out = main["fwd_sampler"](p.nextkey(), p.shape(x0[p.U]), p.shape(x0[p.V]), **main["_kw"])
            a = r.last("euler_maruyama")
            p.grid(a["ts"])
            st = np.max(np.abs(np.asarray(out, np.float64).reshape(K + 1, -1)[0] - x0))
            z = p.rng.normal(size=784)
            for tau in (0.125, 0.4):
                d = np.asarray(a["drift"](jnp.asarray(z.reshape(28, 28, 1), jnp.float32), jnp.float32(tau)), np.float64).reshape(-1)
                ev.append(dict(e="fdrift", tau=fx(tau), rows=p.rows(z, p.U, d[p.U]) + p.rows(z, p.V, d[p.V]), start=int(min(LIM, st * 2 ** 14)),
                               path=bool(a["return_path"]) and a["integration_nsteps"] == 1, b2=fx(float(a["dispersion"](jnp.float32(tau))) ** 2)))
        elif "fwd_sampler" in main:
            kw = main["_kw"]

            def path(x, k):
                z = main["fwd_sampler"](k, p.shape(x[p.U]), p.shape(x[p.V]), **kw)
                u, v = [np.asarray(q)[..., 0] for q in main["unpack"](z, **kw)]
                full = np.zeros((K + 1, 784))
                full[:, p.U], full[:, p.V] = u, v
                return full
            p.fwd(path, p.rng.normal(size=784))
        else:
            p.fwd(lambda x, k: main["fwd_ys_sampler"](k, p.shape(x)), p.rng.normal(size=len(p.V)))
        if not sb and method == "filter":      # the same image when the run starts from it
            r2 = run(script, argv + ["--start_from", 1], X, fakes=dict(gibbs_init=ginit))
            ev.append(dict(e="same", dev=diffs(true_of(r2, 1), true) + diffs(r2.last("gibbs_init")["y0"], main["y0"]) + int(any("-0-true" in f for f in r2.saved))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def csgm(rng, script, sde, X, N, ema=False, rnd=False):
    K = 4
    c, argv = setting(rng, script, sde, "csgm", K, ema, rnd, rect=12)
    nimg = 3 if "inp" in script else 1
    argv += ["--nsamples", N, "--ny0s", nimg]
    c["need"], c["p"], c["pema"] = ["csgm"], list(PC), list(PCEMA)
    ev = []

    def go():
        r = run(script, argv, X, eager=False, p=PC, pema=PCEMA)
        zs = {}
        evs, uvs, pairs = {}, {}, []
        for k in range(nimg):
            t = np.asarray(true_of(r, k), np.float64).reshape(-1)
            S = [a for f, a in r.saved.items() if f.endswith(".npy") and "-%d-csgm" % k in f][0].reshape(N, 784)
            U = np.nonzero(S.std(axis=0) > 0)[0]
            O = np.setdiff1d(J, U)
            ev.append(dict(e="img", where=U.tolist(), obs=int(np.sum(np.abs(S[:, O] - t[O]) > 1e-5)), y=0))
            for j in U:
                cl = 0 if j % 2 == 0 else 1 if j - 1 in U else 2
                zs.setdefault((cl, int(j % 7), int(t[j - 1]) if cl == 2 else 0), []).append(S[:, j])
                if cl == 1:
                    pairs.append((S[:, j - 1], S[:, j]))
        bins, mean, res = [], [], {0: [], 1: [], 2: []}
        for (cl, j7, y), v in sorted(zs.items()):
            v = np.stack(v)
            bins.append([cl, j7, y, int(math.isqrt(v.size))])
            mean.append(v.mean())
            res[cl].append(v - v.mean(axis=1, keepdims=True))
        f = N / (N - 1)
        var = [np.concatenate(res[k]).var() * f if res[k] else 0. for k in range(3)]
        R = [int(math.isqrt(np.concatenate(res[k]).size)) if res[k] else 0 for k in range(3)]
        cov = np.mean([np.mean((a - a.mean()) * (b - b.mean())) for a, b in pairs]) * f
        ev.append(dict(e="csgm", bins=bins, mean=fx(mean), var=fx(var), R=R, cov=fx(cov)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def twisted(rng, script, sde, X, seed, ema=False, rnd=False):
    K, n = 4, int(rng.integers(2, 6))
    c, argv0 = setting(rng, script, sde, "twisted", K, ema, rnd)
    argv0 = argv0 + ["--nparticles", n]
    c["need"] = ["opts", "grid", "drift", "dens", "twist", "prop", "noise", "pick"]
    ev = []

    def fake(d):
        w = jnp.arange(1., d["nparticles"] + 1)
        u = jnp.arange(d["nparticles"] * 1.)[:, None, None, None] + jnp.zeros((28, 28, 1))
        return u.at[:, 0, 1, 0].set(jax.random.uniform(d["key"])), jnp.log(w / jnp.sum(w))

    def go():
        r = run(script, argv0 + ["--ny0s", 2, "--nsamples", 1], X, fakes=dict(twisted_smc=fake))
        p = Probe(c, seed, ev)
        a = r.last("twisted_smc")
        kw = a["_kw"]
        p.opts([a["nparticles"], a["resampling"].__name__, len(r.calls["twisted_smc"])], [n, "stratified", 2])
        p.grid(a["ts"])
        dt = p.dt
        true = np.asarray(true_of(r, 1), np.float64).reshape(-1)
        order = {v: j for j, v in enumerate(true)}
        p.V = np.array([order.get(v, -1) for v in np.asarray(a["y"], np.float64).reshape(-1)])
        p.U = np.setdiff1d(J, p.V)
        c["need"].append("img")
        ev.append(dict(e="img", where=p.U.tolist(), obs=0, y=int(len(set(p.V.tolist())) != 784 - c["nu"] or -1 in p.V)))
        shown(p, r, 1, true, a["y"])
        p.ref(lambda m: a["init_sampler"](p.nextkey(), m))
        img = lambda z: jnp.reshape(z, (*z.shape[:-1], 28, 28, 1))
        F = lambda z: jnp.asarray(z, jnp.float32)
        for k, tau in ((2, 1.5), (3, 1.0), (4, 0.5)):
            t, b2 = jnp.float32(2 - tau), p.b2(tau)
            x = p.rng.normal(size=784)
            lp = lambda q: a["transition_logpdf"](img(q)[None], img(F(x))[None], t)[0]
            p.density(lp, J, x, tau, "transition")
            # twisting density: Gaussian in y
            y = F(p.rng.normal(size=len(p.V)))
            tw = lambda q, z: a["twisting_logpdf"](q[:, None], img(z)[None], t, **kw)[0]
            g = jax.grad(tw)
            e = jnp.eye(len(p.V))
            H = [float(jax.jvp(lambda q: g(q, F(x)), (y,), (e[i],))[1][i]) for i in (0, len(p.V) // 2)]
            tv = -1 / H[0]
            yh = np.asarray(y, np.float64) + np.asarray(g(y, F(x)), np.float64) * tv
            v = (float(tw(F(yh), F(x))) + 0.5 * len(yh) * math.log(2 * math.pi * tv)) / len(yh)
            ev.append(dict(e="twist", tau=fx(tau), k=k, rows=p.rows(x, p.V, yh), h=fx([-1 / h for h in H]), v=obs(v)))
            # proposal: density's drift against the reverse drift, both by gradients
            pl = lambda q: a["twisting_prop_logpdf"](img(q)[None], img(F(x))[None], t, a["y"] * 0 + y[:, None], **kw)[0]
            var = dt * b2
            ga, gb = [np.asarray(jax.grad(f)(F(x)), np.float64) * var / dt for f in (pl, lp)]
            gt = np.asarray(jax.grad(lambda z: tw(y, z))(F(x)), np.float64)
            pick = p.rng.permutation(784)[:60]
            pick = [i for i in pick if abs(gt[i]) < 3][:40]
            ev.append(dict(e="prop", tau=fx(tau), rows=[fx([ga[i] - gb[i], gt[i]]) for i in pick]))
            m = jnp.asarray(x + dt * ga, jnp.float32)
            vv = (float(pl(m)) + 0.5 * 784 * math.log(2 * math.pi * var)) / 784
            hh = [float(jax.jvp(jax.grad(pl), (m,), (jnp.eye(784)[i],))[1][i]) * -var for i in (0, 300)]
            ev.append(dict(e="dens", what="proposal", hd=[obs(h) for h in hh], ho=obs(0.), v=obs(vv)))
            s = np.concatenate([np.asarray(a["twisting_prop_sampler"](p.nextkey(), img(F(np.tile(x, (n, 1)))), t, a["y"] * 0 + y[:, None], **kw), np.float64).reshape(n, 784) for _ in range(60)])
            p.noise((s - x - dt * ga) / math.sqrt(dt), tau)
        N = 250
        r = run(script, argv0 + ["--ny0s", 1, "--nsamples", N], X, fakes=dict(twisted_smc=fake), eager=False)
        S = np.concatenate([z.reshape(N, 784) for z in restored(r, N)])
        ev.append(dict(e="pick", n=n, N=N, counts=[int(np.sum(np.round(S[:, 5]) == i)) for i in range(n)], keys=len(np.unique(S[:, 1]))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv0]))


def real(rng, script, sde, X, extra=(), sb=False):
    """The whole script with the real samplers: finite images that keep the observed pixels."""
    N = 3
    c, argv = setting(rng, script, sde, "real", 2, not sb and bool(rng.integers(2)), False)
    argv += ["--nsamples", N] + (["--y0_id", 1] if sb else ["--ny0s", 1]) + list(extra)
    c["need"] = ["real"]
    ev = []

    def go():
        r = run(script, argv, X, eager=False, real=("gibbs_init", "gibbs_kernel", "pmcmc_kernel", "twisted_smc", "euler_maruyama", "bootstrap_filter",
                                                    "bootstrap_backward_smoother"))
        t = np.asarray(true_of(r, 1 if sb else 0), np.float64).reshape(-1)
        for S in restored(r, N):
            S = np.asarray(S, np.float64).reshape(N, 784)
            ev.append(dict(e="real", chain=not ("filter" in extra[3:4] or "twisted" in script), finite=int(np.sum(~np.isfinite(S))), obs=int(np.sum(np.any(np.abs(S - t) > 1e-5, axis=0))),
                           whole="twisted" in script, same=int(len(np.unique(S[:, np.abs(S[-1] - t) > 1e-5], axis=0)))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(script=script, argv=[str(a) for a in argv]))


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in ts:
        add(t, "drift", lambda e: e["e"] in ("drift", "fdrift"), lambda e: e["rows"][0].__setitem__(4, e["rows"][0][4] + 100))
        add(t, "sampler's drift", lambda e: e["e"] == "lin", lambda e: e["rows"][0].__setitem__(3, e["rows"][0][3] + 100))
        add(t, "offset", lambda e: e["e"] == "off", lambda e: e["rows"][-1].__setitem__(1, e["rows"][-1][1] + 200))
        add(t, "noise", lambda e: e["e"] == "noise", lambda e: e["m"][0].update(var=obs(7.0)))
        add(t, "law", lambda e: e["e"] == "csgm", lambda e: e["mean"].__setitem__(0, e["mean"][0] + 900))
        add(t, "spread", lambda e: e["e"] == "csgm", lambda e: e["var"].__setitem__(1, e["var"][1] * 2))
        add(t, "slots", lambda e: e["e"] == "pick", lambda e: e.update(counts=e["counts"][::-1]))
        add(t, "chain", lambda e: e["e"] == "chain" and e["links"], lambda e: e["links"][-1].__setitem__(-1, 1))
        add(t, "places", lambda e: e["e"] == "img", lambda e: e["where"].__setitem__(0, e["where"][1]))
        add(t, "observed pixels", lambda e: e["e"] == "real" and not e["whole"], lambda e: e.update(obs=784))
        add(t, "start", lambda e: e["e"] == "start" and e["what"] == "interp", lambda e: e["rows"][0].__setitem__(2, e["rows"][0][2] + 60))
        add(t, "twisting", lambda e: e["e"] == "twist", lambda e: e["rows"][0].__setitem__(4, e["rows"][0][4] + 100))
    return out


def body(c):
    r = tlc.check("ImgModelMC", "SPECIFICATION Spec\nINVARIANTS Assembled Factorises Moves\nCHECK_DEADLOCK FALSE\n", workers=8)
    c.tlc(r, "ImgModelMC: steps of the parts are the step of the image; the restored image is made of chain state and observation")
    rng = np.random.default_rng(c.seed * 7919 + 31)
    sd = lambda: int(rng.integers(2 ** 30))
    X, B = images(c.seed, False), images(c.seed, True)
    ts = []
    for rep in range(3 if c.thorough else 1):
        K = lambda: int(rng.integers(3, 7))
        I, S = "imgs/inpainting.py", "imgs/supr.py"
        ts += [samplers(rng, I, "lin", "filter", K(), X, sd(), ema=True, marg=bool(rng.integers(2))),
               samplers(rng, I, "const", "gibbs-eb", K(), X, sd(), marg=True, init="filter"),
               samplers(rng, I, "lin", "pmcmc-0.2", K(), X, sd()),
               samplers(rng, I, "lin", "gibbs-eb-ef", K(), X, sd()),
               samplers(rng, S, "lin", "gibbs-eb-ef", K(), X, sd(), rnd=True, ema=True),
               samplers(rng, S, "const", "filter", K(), X, sd(), marg=True),
               samplers(rng, S, "lin", "gibbs", K(), X, sd(), marg=True, init="filter"),
               samplers(rng, S, "const", "pmcmc", K(), X, sd(), rnd=True)]
        ts += [samplers(rng, "sb_imgs/supr.py", s, m, K(), X, sd()) for s, m in (("lin", "filter"), ("const", "gibbs"))]
        N = 1000 if c.thorough else 400
        ts += [csgm(rng, "imgs/inpainting_csgm.py", "lin", B, N, ema=True), csgm(rng, "imgs/supr_csgm.py", "const", B, N, rnd=True),
               csgm(rng, "imgs/inpainting_csgm.py", "const", B, N), csgm(rng, "imgs/supr_csgm.py", "lin", B, N, ema=True)]
        ts += [twisted(rng, "imgs/inpainting_twisted.py", "const", X, sd()), twisted(rng, "imgs/supr_twisted.py", "lin", X, sd(), rnd=True, ema=True)]
    q = ["--nparticles", 3]
    ts += [real(rng, "imgs/inpainting.py", "lin", X, q + ["--method", "gibbs-eb", "--init_method", "filter", "--marg"]),
           real(rng, "imgs/inpainting.py", "const", X, q + ["--method", "filter"]),
           real(rng, "imgs/supr.py", "const", X, q + ["--method", "pmcmc-0.1"]),
           real(rng, "imgs/supr.py", "lin", X, q + ["--method", "gibbs-eb-ef"]),
           real(rng, "imgs/inpainting_twisted.py", "lin", X, q),
           real(rng, "sb_imgs/supr.py", "lin", X, q + ["--method", "gibbs"], True)]
    if c.thorough:
        ts += [real(rng, "imgs/inpainting.py", s, X, q + ["--method", m, "--init_method", i] + ["--marg"] * mg)
               for s in ("const", "lin") for m in ("gibbs", "gibbs-eb", "gibbs-eb-ef", "filter", "pmcmc") for i in ("smoother", "filter") for mg in (0, 1)]
    tc.validate(c, "ImgModelTrace", ts, canaries(ts), timeout=1800)
    c.assume("the network is replaced by a known affine score; only the MNIST branch of the scripts is run")


report.main("C31", body)
