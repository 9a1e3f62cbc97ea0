import _path  # noqa
import inspect
import math
import os
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, moments, gpexp, tracecheck as tc
from lib.obs import obs

LIM = 2 ** 20
PP = (-0.75, 0.5)
IB, IF = (-2., -3.), (4., 5.)
SMALL, BIG = (0.3, 0.4), (60., 80.)


def fx(x, k=11, lim=LIM):
    x = np.asarray(x, np.float64)
    x = np.where(np.isfinite(x), x, 1e9)
    return np.clip(np.round(x * 2 ** k), -lim, lim).astype(int).tolist()


def par(x):
    x = np.asarray(x, np.float64)
    return fx(x, 18, 2 ** 28) if x.shape == (2,) else [0]


class Figure:
    """Stands for whatever matplotlib returns."""

    def __getattr__(self, n):
        return lambda *a, **k: None

    def __getitem__(self, i):
        return self


class Stubs:
    def __init__(self, n, mnist):
        self.made, self.n, self.ev, self.saved = 0, n, [], []
        stub = self

        class Small(mnist):
            def __init__(self, key, data_path, task="inpaint-15", test=False):
                super(mnist, self).__init__(task, (28, 28, 1))
                self.n = stub.n
                self.xs = jnp.asarray(np.arange(stub.n, dtype=np.float32)[:, None, None, None] * np.ones((28, 28, 1), np.float32))
        self.dataset = Small

    def net(self, key, *a, **kw):
        self.made += 1
        return jnp.asarray(IF if self.made == 1 else IB, jnp.float32), None, lambda x, t, p: p[0] * x + p[1] * t

    def savez(self, f, *a, **kw):
        self.saved.append(str(f))
        self.ev.append(dict(e="saved", name=os.path.basename(str(f)).split(".npz")[0], **{k: np.asarray(v) for k, v in kw.items()}))

    def run(self, script, argv, patches=(), fakes={}):
        import matplotlib.pyplot as plt
        import fbs.data
        import fbs.data.images
        import fbs.nn.models
        P = [(np, "savez", self.savez), (plt, "subplots", lambda *a, **k: (Figure(), Figure())), (plt, "savefig", lambda *a, **k: None),
             (fbs.data, "MNISTRestore", self.dataset), (fbs.data.images, "MNISTRestore", self.dataset), (fbs.nn.models, "make_st_nn", self.net),
             (jax, "jit", lambda f=None, **kw: f if f is not None else (lambda g: g))]
        return gpexp.Run(script, argv, patches=P + list(patches), fakes=fakes)


def ids(x, n):
    x = np.asarray(x, np.float64)
    if x.shape[1:] != (28, 28, 1):
        return [-2]
    v = x.reshape(x.shape[0], -1)
    return [int(r[0]) if np.all(r == r[0]) and float(r[0]).is_integer() and 0 <= r[0] < n else -1 for r in v]


def loss_with(grads, store):
    """A function of the parameter with the given gradient; stores the parameter."""
    @jax.custom_vjp
    def f(p):
        store(p)
        return jnp.float32(0.)

    def fwd(p):
        store(p)
        return jnp.float32(0.), None
    f.defvjp(fwd, lambda _, ct: (ct * jnp.asarray(grads, jnp.float32),))
    return f


CASES = [("cos", 2, 2, 2), ("cos", 3, 2, 4), ("cos", 4, 2, 6), ("cos", 2, 3, 3), ("cos", 3, 3, 6), ("cos", 4, 1, 3), ("cos", 2, 4, 4), ("cos", 2, 6, 6),
         ("exp", 3, 2, 1), ("exp", 4, 1, 1), ("const", 3, 3, 1)]


def setup(rng, kind, case, big=False, clip=False):
    schedule, ne, spe, D = case
    B = 12 // spe
    n = 12 + (int(rng.integers(0, B)) if rng.random() < 0.5 else 0)
    sde = ["const", "lin"][int(rng.integers(2))]
    Tend = 2.0 if kind == "score" else float(rng.choice([0.5, 1.0]))
    nsteps = int(rng.integers(8, 20))
    lr = [1 / 16, 1 / 32][int(rng.integers(2))]
    c = dict(kind=kind, sde=sde, schedule=schedule, D=D, spe=spe, B=B, n=n, nepochs=ne, nsb=1 if kind == "score" else 3, lr=int(lr * 2 ** 18), big=big, clip=clip,
             ib=par(IF if kind == "score" else IB), pp=fx(PP), nsteps=nsteps, Tend=fx(Tend), slope=int(round(498 / Tend)), vmap=False)
    c["if"] = par(IF)
    argv = ["--sde", sde, "--lr", lr, "--batch_size", B, "--nsteps", nsteps, "--schedule", schedule, "--nepochs", ne] + ["--grad_clip"] * clip
    return c, argv, Tend


def key_id(k):
    return tuple(np.asarray(k).reshape(-1).tolist())


def kin(keys):
    """Keys that are children of others."""
    kids = {key_id(q) for k in keys for m in (2, 3) for q in np.asarray(jax.random.split(jnp.asarray(k, jnp.uint32), m))}
    return len(kids & set(keys))


def bridge(rng, case, vmap=False, big=False, clip=False):
    import fbs.dsb
    import fbs.dsb.base
    import fbs.data.images
    c, argv, T = setup(rng, "sb", case, big, clip)
    if big:
        c["nsb"] = 1
    c["vmap"], c["need"] = vmap, ["step", "ckpt", "pool", "verify"]
    argv += ["--T", T, "--nsbs", c["nsb"]] + ["--vmap_loss"] * vmap
    st = Stubs(c["n"], fbs.data.images.MNISTRestore)
    keys, grids, times, refs, nstep = [], [], [], [], {}

    def make(name, f):
        def g(*a, **kw):
            d = dict(inspect.signature(f).bind(*a, **kw).arguments)
            x, t = float(rng.normal()), float(rng.uniform(0.1, 0.4))
            pp = jnp.asarray(PP, jnp.float32)
            at = lambda h: fx([x, t, float(np.asarray(h(jnp.full((1,), x, jnp.float32), jnp.float32(t), pp)).reshape(-1)[0])])
            ts = np.asarray(d["ts"], np.float64)
            i = ids(d["init_samples"], c["n"])
            e = dict(e="step", vmap=name.endswith("_v"), sp=par(d["simulator_param"]), ids=i, ts=fx(ts), sim=at(d["simulator_drift"]), par=at(d["parametric_drift"]),
                     b2=fx([t, float(d["dispersion"](jnp.float32(t))) ** 2]))
            st.ev.append(e)
            keys.append(key_id(d["key"]))
            z = np.sort(ts)[1:-1]
            grids.append(tuple(z.tolist()))
            times.extend((z / T).tolist())
            if all(k == -1 for k in i):
                refs.append(np.asarray(d["init_samples"], np.float64).reshape(len(i), -1))
            w = "fwd" if all(k == -1 for k in i) else "bwd"
            nstep[w] = nstep.get(w, 0) + 1
            return loss_with(BIG if big and nstep[w] == 1 else SMALL, lambda p: e.update(p=par(p)))(d["param"])
        g.__signature__ = inspect.signature(f)
        return g

    def euler(d):
        tau, x = 0.3, np.array([-1., 0.5, 2.])
        row = np.asarray(d["drift"](jnp.asarray(x, jnp.float32), jnp.float32(tau)), np.float64)
        ts = np.asarray(d["ts"], np.float64)
        verify.append(dict(e="verify", rows=[fx([a, tau, b]) for a, b in zip(x, row)], ends=fx([ts[0], ts[-1]]), mono=bool(np.all(np.diff(ts) < 0))))
        return d["x0"]
    verify = []

    def go():
        a, b = fbs.dsb.base.ipf_loss_cont, fbs.dsb.base.ipf_loss_cont_v
        P = []
        for m in (fbs.dsb, fbs.dsb.base):
            P += [(m, "ipf_loss_cont", make("c", a)), (m, "ipf_loss_cont_v", make("c_v", b))]
        st.run("sb_imgs/train.py", argv, P, dict(euler_maruyama=euler))
    _, err = rec.observe(go)
    ev = []
    for e in st.ev:
        if e["e"] == "saved":
            it = e["name"].rsplit("_", 1)
            ev.append(dict(e="ckpt", it=int(it[1]) if it[0] == "sb_mnist_" + c["sde"] and it[1].isdigit() else -1, bwd=par(e.get("param_bwd")), fwd=par(e.get("param_fwd"))))
        else:
            ev.append(e)
    if err:
        return dict(c=c, ev=ev + [err], info=dict(argv=[str(a) for a in argv]))
    ev += verify[:1]
    t = np.array(times)
    z = np.concatenate(refs) if refs else np.zeros((1, 784))
    ev.append(dict(e="pool", times=[[obs(t.mean(), 10), obs((t ** 2).mean(), 10)]], Rt=int(math.isqrt(len(t))), m=[moments.entry(z)], R0=int(math.isqrt(z.size)),
                   distinct=len({tuple(r[:3]) for r in z}), draws=len(z), keys=len(set(keys)), kin=kin(keys), grids=len(set(grids)), calls=len(keys)))
    return dict(c=c, ev=ev, info=dict(argv=[str(a) for a in argv]))


def score(rng, case, big=False, clip=False, loss="score", mem=False):
    import fbs.sdes
    import fbs.sdes.linear
    import fbs.sdes.simulators
    import fbs.data.images
    c, argv, T = setup(rng, "score", case, big, clip)
    c["need"] = ["step", "opts", "law", "pool", "verify"]
    argv += ["--loss_type", loss] + ["--save_mem"] * mem
    st = Stubs(c["n"], fbs.data.images.MNISTRestore)
    keys = []
    real = fbs.sdes.linear.make_linear_sde_law_loss

    def make(*a, **kw):
        b = inspect.signature(real).bind(*a, **kw)
        b.apply_defaults()
        d = b.arguments
        opts = [float(d["t0"]), float(d["T"]), d["nsteps"], d["random_times"], d["loss_type"], d["save_mem"]]
        st.ev.append(dict(e="opts", got=[str(z) for z in opts], want=[str(z) for z in [0., T, c["nsteps"], True, loss, mem]]))
        x, t = float(rng.normal()), float(rng.uniform(0.2, 1.8))
        X = jnp.full((1,), x, jnp.float32)
        one = lambda v: float(np.asarray(v).reshape(-1)[0])
        st.ev.append(dict(e="law", sim=fx([x, t, one(d["sde"].drift(X, jnp.float32(t)))]), b2=fx([t, one(d["sde"].dispersion(jnp.float32(t))) ** 2]),
                          par=fx([x, t, one(d["nn_fn"](X, jnp.float32(t), jnp.asarray(PP, jnp.float32)))])))

        def loss_fn(param, key, x0s):
            keys.append(key_id(key))
            e = dict(e="step", ids=ids(x0s, c["n"]))
            st.ev.append(e)
            return loss_with(BIG if big and len(keys) == 1 else SMALL, lambda p: e.update(p=par(p)))(param)
        return loss_fn
    verify = []

    def reverse(key, u0, ts, sc, drift, disp, *a, **kw):
        tau, x = 0.3, np.array([-1., 0.5, 2.])
        row = np.asarray(sc(jnp.asarray(x, jnp.float32), jnp.float32(tau)), np.float64)
        ts = np.asarray(ts, np.float64)
        verify.append(dict(e="verify", rows=[fx([p, tau, q]) for p, q in zip(x, row)], ends=fx([ts[-1], ts[0]]), mono=bool(np.all(np.diff(ts) > 0))))
        return u0

    def go():
        P = []
        for m in (fbs.sdes, fbs.sdes.linear):
            P.append((m, "make_linear_sde_law_loss", make))
        for m in (fbs.sdes, fbs.sdes.simulators):
            P.append((m, "reverse_simulator", reverse))
        st.run("imgs/train.py", argv, P)
    _, err = rec.observe(go)
    ev = [e for e in st.ev if e["e"] != "saved"]
    if err:
        return dict(c=c, ev=ev + [err], info=dict(argv=[str(a) for a in argv]))
    ev += verify[:1]
    ev.append(dict(e="pool", times=[], Rt=1, m=[], R0=1, distinct=0, draws=0, keys=len(set(keys)), kin=kin(keys), grids=len(keys), calls=len(keys)))
    return dict(c=c, ev=ev, info=dict(argv=[str(a) for a in argv]))


def long(rng, ne, spe):
    """Labelled steps, the real averaging of the weights: the checkpoints of a long run."""
    import fbs.nn.utils
    import fbs.data.images
    import fbs.sdes
    import fbs.sdes.simulators
    sde = ["const", "lin"][int(rng.integers(2))]
    c = dict(kind="flow", sde=sde, spe=spe, nepochs=ne, nsb=0, need=["flow"], ib=[0, 0])
    c["if"] = [0, 0]
    argv = ["--sde", sde, "--batch_size", 2, "--nepochs", ne]
    st = Stubs(2 * spe, fbs.data.images.MNISTRestore)
    real = fbs.nn.utils.make_optax_kernel
    s = dict(k=0, breaks=0, p=None, o=None)

    def make(optimiser, loss_fn, *a, **kw):
        _, ema = real(optimiser, loss_fn, *a, **kw)

        def kernel(param, opt, key, x0s):
            if s["k"]:
                s["breaks"] += int(param is not s["p"] and not np.array_equal(np.asarray(param), np.asarray(s["p"]))) + int(opt is not s["o"] and opt != s["o"])
            s["p"] = np.full(2, s["k"] % spe + 1., np.float32)
            s["k"] += 1
            s["o"] = ("opt", s["k"])
            return s["p"], s["o"], 0.
        return kernel, ema

    def go():
        st.run("imgs/train.py", argv, [(fbs.nn.utils, "make_optax_kernel", make)] + [(m, "reverse_simulator", lambda key, u0, *a, **k: u0) for m in (fbs.sdes, fbs.sdes.simulators)])
    _, err = rec.observe(go)
    if err:
        return dict(c=c, ev=[err], info=dict(argv=[str(a) for a in argv]))
    name = lambda f: int(f.rsplit("_", 1)[1]) if f.rsplit("_", 1)[0] == "mnist_" + sde and f.rsplit("_", 1)[1].isdigit() else -1
    one = lambda z: fx(np.asarray(z).reshape(-1)[0], 12, 2 ** 27)
    ev = [dict(e="flow", breaks=s["breaks"], steps=s["k"], names=[name(e["name"]) for e in st.ev if e["e"] == "saved"],
               ck=[[one(e.get("param", 0)), one(e.get("ema_param", 0))] for e in st.ev if e["e"] == "saved"])]
    return dict(c=c, ev=ev, info=dict(argv=[str(a) for a in argv]))


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in ts:
        n = sum(e["e"] == "step" for e in t["ev"])
        if not n:
            continue
        seen = []
        nth = lambda k: (lambda e: e["e"] == "step" and (seen.append(1) or len(seen) == k))
        for k in sorted({2, n}):
            seen = []
            add(t, "step %d" % k, nth(k), lambda e: e.update(p=[e["p"][0] + 60, e["p"][1]]))
        if t["c"]["kind"] == "sb":
            seen = []
            add(t, "simulating network", nth(n), lambda e: e.update(sp=e["p"]))
            add(t, "checkpoint", lambda e: e["e"] == "ckpt", lambda e: e.update(bwd=e["fwd"]))
            add(t, "first simulations", lambda e: e["e"] == "step", lambda e: e.update(sim=e["par"]))
            add(t, "times", lambda e: e["e"] == "step", lambda e: e.update(ts=e["ts"][::-1]))
        add(t, "images", lambda e: e["e"] == "step", lambda e: e.update(ids=[e["ids"][0]] * len(e["ids"])) if len(e["ids"]) > 1 else e.update(ids=[-1]))
        add(t, "samples after training", lambda e: e["e"] == "verify", lambda e: e["rows"][0].__setitem__(2, e["rows"][0][2] + 200))
    return out


def body(c):
    r = tlc.check("TrainingMC", "SPECIFICATION Spec\nINVARIANTS Progress Whole Counts Still Falls\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", workers=8)
    c.tlc(r, "TrainingMC: alternation of the two networks; epochs visit all images; the simulating network stands still; training ends")
    rng = np.random.default_rng(c.seed * 7919 + 32)
    ts = []
    for rep in range(12 if c.thorough else 1):
        order = rng.permutation(len(CASES))
        for i, j in enumerate(order):
            if c.thorough or i % 2 == 0:
                ts.append(bridge(rng, CASES[j], vmap=bool(rng.integers(2))))
            if c.thorough or i % 2 == 1:
                ts.append(score(rng, CASES[j], loss=["score", "ipf", "ipf-score"][i % 3], mem=bool(rng.integers(2))))
        one = ("const", 1, 2, 1)
        for clip in (False, True):
            ts += [bridge(rng, one, vmap=clip, big=True, clip=clip), score(rng, one, big=True, clip=clip)]
    ts += [long(rng, 100, 303), long(rng, 203, 1)]
    tc.validate(c, "TrainingTrace", ts, canaries(ts), timeout=1800)
    c.assume("the network is replaced by a linear one, the loss by one with a known gradient (C19, C21 decide the losses); only the MNIST branch of the scripts is run on a stand-in data set")


report.main("C32", body)
