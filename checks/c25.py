import _path  # noqa
from fractions import Fraction as Fr
import numpy as np
import jax
import jax.numpy as jnp
import optax
from lib import report, tlc, rec, moments, small as sm, tracecheck as tc
from lib.obs import obs, obss
from lib.small import S

s_ = lambda x: S(Fr(x).numerator, Fr(x).denominator)


def loss(c, p, b, w):
    t, u = S(0), S(0)
    for i in reversed(range(len(p))):
        t = c["a"][i] * ((p[i] - b[i]) * (p[i] - b[i])) + t
        u = p[i] + u
    return S(1, 2) * t + w * u


def step(c, o, b, w):
    p, v, n = o
    g = [(a * (x - y) + w) + c["wd"] * x for a, x, y in zip(c["a"], p, b)]
    v = [x + c["mu"] * y for x, y in zip(g, v)]
    lr = c["lr"] if n < c["half"] else c["lr"] * S(1, 2)
    q = [x - lr * y for x, y in zip(p, v)]
    return q, v, n + 1


def ok(*xs):
    for x in xs:
        if abs(float(x)) > 500 or x.d > 2 ** 20 or abs(x.n) > 2 ** 28:
            raise sm.Over


def history(rng, j):
    from fbs.nn.utils import make_optax_kernel
    d = int(rng.integers(1, 4))
    ri = lambda lo, hi, n=d: [S(int(z)) for z in rng.integers(lo, hi + 1, n)]
    c = dict(a=ri(-1, 2), p0=ri(-3, 3), lr=S(1, int(rng.choice([1, 2, 4]))), mu=S(int(rng.choice([0, 1])), 2), wd=S(int(rng.choice([0, 1])), 2),
             half=int(rng.choice([1, 2, 100])))
    jit = bool(j % 2)
    ev = []

    def go():
        tx = optax.chain(optax.add_decayed_weights(float(c["wd"])),
                         optax.sgd(lambda n: jnp.where(n < c["half"], 1.0, 0.5) * float(c["lr"]), momentum=float(c["mu"]) if float(c["mu"]) else None))
        A = jnp.asarray(sm.fl(c["a"]), jnp.float32)
        kw = bool(rng.integers(2))

        def loss_fn(p, b, w=0.0):
            return 0.5 * jnp.sum(A * (p - b) ** 2) + w * jnp.sum(p)
        kernel, ema_kernel = make_optax_kernel(tx, loss_fn, **({} if jit and j % 4 == 1 else dict(jit=jit)))
        f = lambda z: jnp.asarray(sm.fl(z), jnp.float32)
        model, real = [(c["p0"], [S(0)] * d, 0)], [(f(c["p0"]), tx.init(f(c["p0"])))]
        mema, rema = [c["p0"]], [f(c["p0"])]
        start, every = int(rng.integers(0, 5)), int(rng.integers(1, 4))
        decay = S(*[(1, 2), (3, 4), (1, 1), (0, 1), (1, 4)][int(rng.integers(5))])
        count = 0
        try:
            for _ in range(14):
                if rng.random() < 0.5:
                    k = len(model) - 1 if rng.random() < 0.75 else int(rng.integers(len(model)))
                    b, w = ri(-3, 3), S(int(rng.integers(-1, 2))) if rng.random() < 0.6 else S(0)
                    L, new = loss(c, model[k][0], b, w), step(c, model[k], b, w)
                    ok(L, *new[0], *new[1])
                    args = (f(b),) if w == 0 and rng.random() < 0.5 else ((f(b), float(w)) if not kw else (f(b),))
                    kws = dict(w=float(w)) if kw and len(args) == 1 and not w == 0 else {}
                    p, st, v = kernel(*real[k], *args, **kws)
                    ev.append(dict(e="opt", b=sm.pair(b), w=w.pair(), loss=obs(v, 14, 20) if np.ndim(v) == 0 else moments.BAD, p=obss(p, 16, 20),
                                   **{"from": k + 1}))
                    model.append(new)
                    real.append((p, st))
                else:
                    k = len(mema) - 1 if rng.random() < 0.75 else int(rng.integers(len(mema)))
                    at = len(model) - 1 if rng.random() < 0.75 else int(rng.integers(len(model)))
                    if rng.random() < 0.2:
                        start, every, count = int(rng.integers(0, 5)), int(rng.integers(1, 4)), int(rng.integers(0, 9))
                    P, E = model[at][0], mema[k]
                    new = P if count < start else [decay * x + (S(1) - decay) * y for x, y in zip(E, P)] if count % every == 0 else E
                    ok(*new)
                    v = ema_kernel(rema[k], real[at][0], count, start, every, float(decay))
                    ev.append(dict(e="ema", at=at + 1, count=count, start=start, every=every, decay=decay.pair(), v=obss(v, 16, 20), **{"from": k + 1}))
                    mema.append(new)
                    rema.append(v)
                    count += 1
        except sm.Over:
            pass
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c={k: (sm.pair(v) if isinstance(v, (list, S)) else v) for k, v in c.items()}, ev=ev, info=dict(kernels="make_optax_kernel", jit=jit, dim=d))


def like(rng, j):
    """Other optimisers and tree-shaped parameters: the kernel does what the optimiser does."""
    from fbs.nn.utils import make_optax_kernel
    name = ["adam", "adamw", "rmsprop", "schedule", "clip"][j % 5]
    ev = []

    def go():
        tx = dict(adam=lambda: optax.adam(1e-2), adamw=lambda: optax.adamw(3e-2, weight_decay=0.1), rmsprop=lambda: optax.rmsprop(1e-2),
                  schedule=lambda: optax.adam(optax.cosine_decay_schedule(1e-1, 4)), clip=lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.adam(1e-1)))[name]()
        x = jnp.asarray(rng.normal(size=(7, 3)), jnp.float32)
        p = dict(w=jnp.asarray(rng.normal(size=3), jnp.float32), b=jnp.float32(0.3)) if j % 2 else jnp.asarray(rng.normal(size=4), jnp.float32)

        def loss_fn(p, x, y=0.0):
            w, b = (p["w"], p["b"]) if isinstance(p, dict) else (p[:3], p[3])
            return jnp.mean((jnp.tanh(x @ w + b) - jnp.sin(x[:, 0]) - y) ** 2)
        ks = [make_optax_kernel(tx, loss_fn, jit=z)[0] for z in (True, False)]
        dist = lambda a, b: max([0.0] + [float(np.max(np.abs(np.asarray(u, np.float64) - np.asarray(v, np.float64)))) if np.shape(u) == np.shape(v) else 9.0
                                         for u, v in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b))]) \
            if jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) else 9.0
        s = tx.init(p)
        for i in range(4):
            y = float(i) / 4
            l, g = jax.value_and_grad(loss_fn)(p, x, y=y)
            u, s1 = tx.update(g, s, p)
            p1 = optax.apply_updates(p, u)
            a, b = [k(p, s, x, y=y) for k in ks]
            ev.append(dict(e="like", loss=obs(dist(a[2], l), 20), p=obs(dist(a[0], p1), 20), s=obs(dist(a[1], s1), 20), j=obs(dist(a, b), 20)))
            p, s = p1, s1
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(p0=[[0, 1]]), ev=ev, info=dict(kernels="make_optax_kernel", optimiser=name))


def canaries(th, tl):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in th[:8]:
        add(t, "loss", lambda e: e["e"] == "opt", lambda e: e.update(loss=[e["loss"][0] + 40 + abs(e["loss"][0]) // 1000, e["loss"][1]]))
        add(t, "parameters", lambda e: e["e"] == "opt", lambda e: e["p"].__setitem__(0, [e["p"][0][0] + 40, e["p"][0][1]]))
        add(t, "average", lambda e: e["e"] == "ema", lambda e: e["v"].__setitem__(0, [e["v"][0][0] + 40, e["v"][0][1]]))
    add(tl[0], "state", lambda e: e["e"] == "like", lambda e: e.update(s=[60, 20]))
    return out


def body(c):
    r = tlc.check("TrainMC", "SPECIFICATION Spec\nCONSTANTS VALS={0,1,5} LEN=%d STARTS={0,1,3} EVERYS={1,2,3}\nINVARIANTS Geometric Follows Hull\nCHECK_DEADLOCK FALSE\n" % (7 if c.thorough else 5), workers=8)
    c.tlc(r, "TrainMC")
    import fbs.nn.utils  # noqa
    rng = np.random.default_rng(c.seed + 25)
    m = 12 if c.thorough else 1
    th = [history(rng, j) for j in range(30 * m)]
    tl = [like(rng, j) for j in range(10 * m)]
    tc.validate(c, "TrainTrace", th + tl, canaries(th, tl), timeout=1800)


report.main("C25", body)
