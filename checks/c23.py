import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, lawtest, tracecheck as tc


def codes(K, H, W, C):
    """Channel b of pixel p of image k has value 100000 k + 8 p + b."""
    p = np.arange(H * W).reshape(H, W)
    return (100000 * np.arange(K)[:, None, None, None] + 8 * p[None, :, :, None] + np.arange(C)).astype(np.float32)


def ints(x):
    x = np.asarray(x, np.float64)
    q = np.where(np.isfinite(x) & (x == np.round(x)), x, -9)
    return np.clip(q, -9, 2 ** 29).astype(int).tolist()


CASES = [("inpaint", (28, 28, 1), 15), ("supr", (28, 28, 1), 4), ("inpaint", (16, 16, 3), 5), ("supr", (16, 16, 3), 4), ("inpaint", (6, 10, 2), 4),
         ("supr", (6, 10, 2), 2), ("inpaint", (10, 6, 3), 5), ("supr", (12, 6, 1), 3), ("inpaint", (5, 5, 1), 4), ("supr", (8, 8, 2), 8),
         ("inpaint", (7, 9, 1), 1), ("supr", (9, 9, 1), 3), ("supr", (5, 15, 3), 5), ("inpaint", (12, 12, 1), 11), ("inpaint", (4, 4, 2), 4),
         ("supr", (4, 8, 1), 4)]


def trace(rng, j, case=None):
    from fbs.data.images import ImageRestore
    task, (H, W, C), s = case or CASES[j % len(CASES)]
    random = bool(rng.random() < 0.7)
    n = 3
    ev = []

    class D(ImageRestore):
        def __init__(self):
            self.n = n
            self.xs = jnp.asarray(codes(n, H, W, C))
            super().__init__("%s-%d" % (task, s), (H, W, C), **({} if random and j % 2 else dict(sr_random=random)))

    def flat(z):
        z = np.asarray(z)
        return ints(z.reshape(-1, z.shape[-1])) if z.ndim else []

    def go():
        d = D()
        key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))

        def mask_event(m):
            u, o = [np.asarray(z) for z in (m.unobs_inds_ravelled, m.obs_inds_ravelled)]
            ev.append(dict(e="mask", unobs=ints(u.ravel()), obs=ints(o.ravel()), shape=[int(z) for z in d.unobs_shape]))
            return m
        for k in jax.random.split(key, 2 if H * W < 200 else 1):
            m = mask_event(d.gen_mask(k))
            lead = [(), (2,), (2, 2), (1, 3)][int(rng.integers(4))]
            K = int(np.prod(lead)) if lead else 1
            img = jnp.asarray(codes(K, H, W, C).reshape((*lead, H, W, C)))
            un, co = (jax.jit(d.unpack), jax.jit(d.concat)) if rng.random() < 0.4 else (d.unpack, d.concat)
            x, y = un(img, m)
            nu, no = int(np.size(m.unobs_inds_ravelled)), int(np.size(m.obs_inds_ravelled))
            for z, want in ((x, [*lead, nu, C]), (y, [*lead, no, C])):
                ev.append(dict(e="shape", got=list(np.shape(z)), want=want))
            X, Y = np.asarray(x).reshape(K, nu, C), np.asarray(y).reshape(K, no, C)
            for q in range(K):
                ev.append(dict(e="unpack", k=q, x=ints(X[q]), y=ints(Y[q])))
            r = co(x, y, m)
            ev.append(dict(e="shape", got=list(np.shape(r)), want=[*lead, H, W, C]))
            for q, z in enumerate(np.asarray(r).reshape(K, H * W, C)):
                ev.append(dict(e="concat", k=q, img=ints(z)))
            f = co(jnp.ones_like(x), 2 * jnp.ones_like(y), m)
            ev.append(dict(e="fill", img=ints(np.asarray(f).reshape(K, H * W, C)[-1, :, -1])))
        for k in jax.random.split(jax.random.fold_in(key, 5), 2):
            x, y, m = d.sampler(k)
            mask_event(m)
            X = np.asarray(x).reshape(H * W, C)
            ev.append(dict(e="sample", k=int(X[0, 0] // 100000), img=ints(X), y=flat(y)))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(task=task, H=H, W=W, C=C, s=s, random=random, n=n), ev=ev, info=dict(task="%s-%d" % (task, s), image_shape=[H, W, C], sr_random=random))


def canaries(ts):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))

    def move(e):     # hide another pixel instead
        e["unobs"][-1], e["obs"][0] = e["obs"][0], e["unobs"][-1]
    for t in ts[:6]:
        add(t, "duplicate", lambda e: e["e"] == "mask", lambda e: e["obs"].__setitem__(0, e["obs"][-1] if len(e["obs"]) > 1 else e["unobs"][0]))
        add(t, "geometry", lambda e: e["e"] == "mask", move)
        add(t, "order", lambda e: e["e"] == "unpack" and len(e["x"]) > 1, lambda e: e["x"].reverse())
        add(t, "restored", lambda e: e["e"] == "concat", lambda e: e["img"][-1].__setitem__(0, 5))
    return out


def laws(c):
    """The observed pixels of random super-resolution masks: uniform in every block, independent across blocks."""
    from fbs.data.images import ImageRestore
    cases = [((4, 4, 1), 4), ((4, 2, 1), 2), ((2, 4, 3), 2), ((6, 3, 1), 3), ((4, 4, 1), 2)]
    ls, r = tlc.laws("MasksX", [dict(H=h, W=w, s=s) for (h, w, _), s in cases])
    c.tlc(r, "MasksX")
    N = 400_000 if c.thorough else 100_000
    for t, ((shape, s), law) in enumerate(zip(cases, ls)):
        d = ImageRestore("supr-%d" % s, shape)
        out, err = rec.observe(lambda: np.asarray(jax.jit(jax.vmap(lambda k: jnp.sort(d.gen_mask(k).obs_inds_ravelled)))(
            jax.random.split(jax.random.PRNGKey(c.seed * 100 + t), N))))
        name = "random mask supr-%d of %s" % (s, list(shape))
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(out.astype(int)), law, N)
        c.count("law_cases")
        c.count("law_draws", N)
        if not ok:
            c.violation("law of the %s: %s" % (name, msg), dict(case=name))


def body(c):
    r = tlc.check("MasksMC", "SPECIFICATION Spec\nCONSTANTS HMAX=%d WMAX=%d\nINVARIANTS IsMask Count Inverse\nCHECK_DEADLOCK FALSE\n" % ((4, 4) if not c.thorough else (4, 6)), workers=8, timeout=1800)
    c.tlc(r, "MasksMC")
    import fbs.data.images  # noqa
    rng = np.random.default_rng(c.seed + 23)
    ts = [trace(rng, j) for j in range(len(CASES))]
    for j in range(200 if c.thorough else 12):
        if j % 2:
            s = int(rng.integers(2, 5))
            case = ("supr", (s * int(rng.integers(1, 5)), s * int(rng.integers(1, 5)), int(rng.integers(1, 4))), s)
        else:
            H, W = [int(z) for z in rng.integers(2, 13, 2)]
            case = ("inpaint", (H, W, int(rng.integers(1, 4))), int(rng.integers(1, min(H, W) + 1)))
        ts.append(trace(rng, j, case))
    tc.validate(c, "MasksTrace", ts, canaries(ts), timeout=1800)
    laws(c)
    c.cov["samples"] = [s for s in c.cov["samples"] if len(str(s)) < 20000]


report.main("C23", body)
