import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, lawtest, tracecheck as tc
from lib.obs import obss


def dataset(task, shape, xs=None):
    from fbs.data.images import Image

    class D(Image):
        def __init__(self):
            self.task, self.image_shape = task, shape
            self.xs = jnp.zeros((1, *shape)) if xs is None else xs
            self.n = int(self.xs.shape[0])
    return D()


def ints(x, scale=1):
    """Integers, nested; anything that is none becomes a value no image has."""
    x = np.asarray(x, np.float64) * scale
    return np.where(np.isfinite(x) & (np.abs(x) < 1e6), np.where(x == np.round(x), x, -99), -98).astype(int).tolist()


def rnd(x, B, cap=2 ** 20):
    x = np.asarray(x, np.float64)
    return np.where(np.isfinite(x), np.clip(np.round(np.where(np.isfinite(x), x, 0) * 2.0 ** B), -cap, cap), cap).astype(int).tolist()


def key_of(rng):
    return jax.random.PRNGKey(int(rng.integers(2 ** 30)))


SHAPES = [(28, 28, 1), (8, 8, 3), (9, 12, 1), (16, 8, 2), (13, 10, 1), (32, 32, 1), (21, 8, 1), (12, 30, 2)]


def squares(rng, j):
    h, w, ch = SHAPES[j % len(SHAPES)]
    s = int(rng.integers(1, min(h, w) + 1)) if j % 3 else min(h, w) // 2
    ev = []

    def go():
        d = dataset("inpaint-%d" % s, (h, w, ch))
        x = rng.integers(1, 250, (h, w, ch))
        for q in range(3):
            f = jax.jit(d.corrupt) if q == 1 else d.corrupt
            y = f(key_of(rng), jnp.asarray(x, jnp.float32))
            ev.append(dict(e="paint", x=x.tolist(), y=ints(y)))
    _, err = rec.observe(go)
    return dict(c=dict(s=s), ev=ev + ([err] if err else []), info=dict(task="inpaint-%d" % s, image_shape=[h, w, ch]))


def reductions(rng, j):
    h, w, ch = SHAPES[j % len(SHAPES)]
    ev = []

    def go():
        d = dataset(["supr", "supr-4"][j % 2], (h, w, ch))
        x = rng.permutation(h * w * ch).reshape(h, w, ch)
        for q in range(3):
            f = jax.jit(d.corrupt) if q == 1 else d.corrupt
            ev.append(dict(e="down", x=x.tolist(), y=ints(f(key_of(rng), jnp.asarray(x, jnp.float32)))))
    _, err = rec.observe(go)
    return dict(c=dict(s=0), ev=ev + ([err] if err else []), info=dict(task="supr", image_shape=[h, w, ch]))


def window(d, key, k, at, size):
    """Response to one bright pixel: the window's values, and whether all else is dark."""
    img = np.zeros((*size, 1), np.float32)
    img[at] = 1
    y = np.asarray(d.corrupt(key, jnp.asarray(img)), np.float64)
    if y.shape != (*size, 1):
        return None, False
    r = k // 2
    win = y[at[0] - r:at[0] + r + 1, at[1] - r:at[1] + r + 1, 0].copy()
    y[at[0] - r:at[0] + r + 1, at[1] - r:at[1] + r + 1] = 0
    return win, bool((np.abs(y) < 1e-7).all())


def blurs(rng, j):
    k = [3, 5, 3, 7, 15][j % 5]
    h, w = (28, 28) if k == 15 else (int(rng.integers(k + 1, k + 4)), int(rng.integers(k + 1, k + 4)))
    ev = []

    def go():
        d = dataset("deconv-%d" % k, (h, w, 1))
        for q in range(1 if k == 15 else 2):
            key = key_of(rng)
            r = k // 2
            at = (int(rng.integers(r, h - r)), int(rng.integers(r, w - r)))
            win, out = window(d, key, k, at, (h, w))
            if win is None:
                ev.append(dict(e="shape", clause="the blurred image has the image's shape"))
                return
            with np.errstate(all="ignore"):
                L = -np.log(win)
            ev.append(dict(e="impulse", L=rnd(L, 12), outside=out, K=rnd(win, 14, 2 ** 15)))
            for _ in range(0 if k == 15 else 2):
                x = rng.integers(0, 3, (h, w, 1))
                x[0, 0] = 2
                y = np.asarray(d.corrupt(key, jnp.asarray(x, jnp.float32)))
                ev.append(dict(e="blur", x=x.tolist(), y=rnd(y.reshape(h, w), 10)) if y.shape == (h, w, 1) else
                          dict(e="shape", clause="the blurred image has the image's shape"))
    _, err = rec.observe(go)
    return dict(c=dict(k=k), ev=ev + ([err] if err else []), info=dict(task="deconv-%d" % k, image_shape=[h, w, 1]))


def others(rng, j):
    from fbs.data.images import normalise
    from fbs.data.base import Dataset
    ev = []

    def go():
        lead = [(), (2,), (3,)][j % 3]
        h, w, ch = int(rng.integers(2, 6)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
        # clip, also the default
        x = rng.integers(-6, 12, (*lead, h, w, ch))
        y = np.asarray(normalise(jnp.asarray(x / 4, jnp.float32), **({} if j % 2 else dict(method="clip"))))
        ev.append(dict(e="clip", x=x.ravel().tolist(), y=obss(y.ravel(), 12)))
        x = rng.integers(-9, 20, (*lead, h, w, ch))
        x.reshape(-1, h, w, ch)[:, 0, 0] = 21
        y = np.asarray(normalise(jnp.asarray(x, jnp.float32), method="norm"))
        if y.shape != x.shape:
            ev.append(dict(e="shape", clause="normalising keeps the shape"))
            return
        for a, b in zip(x.reshape(-1, h, w, ch), y.reshape(-1, h, w, ch)):
            ev.append(dict(e="norm", x=a.tolist(), y=rnd(b, 10)))
        n, dim = int(rng.integers(2, 8)), int(rng.integers(1, 4))
        x = rng.integers(-5, 6, (n, dim))
        x[0], x[1] = 5, -2
        y = np.asarray(Dataset.standardise(jnp.asarray(x, jnp.float32)))
        ev.append(dict(e="standardise", x=x.T.tolist(), y=rnd(y.T, 9, 4000) if y.shape == x.shape else []))
        for shape in ((), (3,), (2, 3), (2, 1, 2)):
            x = rng.integers(0, 100, shape)
            y = Dataset.reshape(jnp.asarray(x))
            ev.append(dict(e="reshape", shape=list(shape), got=list(np.shape(y)), x=np.ravel(x).tolist(), y=ints(np.ravel(y))))
        d = dataset("supr", (h, w, ch))
        shape = (*lead, h, w, ch)
        x, y = rng.integers(0, 1000, shape), rng.integers(0, 1000, shape)
        for ex in (False, True):
            a = (jnp.asarray(x), jnp.asarray(y))
            z = d.concat(*a, expand=True) if ex else (d.concat(*a) if j % 2 else d.concat(*a, expand=False))
            ev.append(dict(e="join", expand=ex, shape=list(shape), got=list(np.shape(z)), x=x.ravel().tolist(), y=y.ravel().tolist(), z=ints(np.ravel(z))))
            if not ex:
                u, v = d.unpack(z)
                ev.append(dict(e="split", x=ints(u), y=ints(v), a=x.tolist(), b=y.tolist()))
        try:
            dataset("sharpen-3", (h, w, ch)).corrupt(jax.random.PRNGKey(0), jnp.ones((h, w, ch)))
            ok = False
        except ValueError:
            ok = True
        ev.append(dict(e="refuse", ok=ok))
    _, err = rec.observe(go)
    return dict(c=dict(k=0), ev=ev + ([err] if err else []), info=dict(what="normalise, standardise, reshape, concat, unpack"))


def canaries(tp, td, tb, to):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in tp[:4]:
        add(t, "painted pixel", lambda e: e["e"] == "paint" and any(p[0] for r in e["y"] for p in r),
            lambda e: next(p for r in e["y"] for p in r if p[0]).__setitem__(0, 0))
    for t in td[:4]:
        add(t, "pixel", lambda e: e["e"] == "down", lambda e: e["y"][0][0].__setitem__(0, -e["y"][0][0][0] - 1))
    for t in tb[:4]:
        add(t, "window", lambda e: e["e"] == "impulse", lambda e: e["L"][0].__setitem__(1, e["L"][0][1] * 11 // 10 + 40))
        add(t, "blur", lambda e: e["e"] == "blur", lambda e: e["y"][0].__setitem__(0, e["y"][0][0] - 60))
    for t in to[:3]:
        add(t, "norm", lambda e: e["e"] == "norm", lambda e: e["y"][-1][-1].__setitem__(0, e["y"][-1][-1][0] + 20))
        add(t, "clip", lambda e: e["e"] == "clip", lambda e: e.update(y=[[9000, 12]] + e["y"][1:]))
        add(t, "standardise", lambda e: e["e"] == "standardise", lambda e: e["y"][0].__setitem__(0, e["y"][0][0] - 20))
        add(t, "join", lambda e: e["e"] == "join", lambda e: e["z"].__setitem__(0, e["z"][0] + 1))
    return out


def laws(c):
    """Where squares fall, which factor, how wide, which row, and that all these are independent."""
    from fbs.data.images import ImageRestore
    P = lambda h, w, s: dict(what="paint", h=h, w=w, s=s)
    rows = lambda n: dict(what="row", n=n)
    D, B = dict(what="down"), dict(what="blur")
    cases = [("paint", (9, 12, 1), 3, [P(9, 12, 3)]), ("paint", (5, 7, 2), 4, [P(5, 7, 4)]), ("paint", (28, 28, 1), 15, [P(28, 28, 15)]),
             ("down", (8, 8, 1), 0, [D]), ("down", (12, 16, 3), 0, [D]), ("blur", (5, 5, 1), 3, [B]), ("blur", (9, 9, 1), 5, [B]),
             ("sample", (9, 12, 1), 3, [rows(4), P(9, 12, 3)]), ("sample", (6, 6, 1), 3, [rows(5), P(6, 6, 3)]), ("sampledown", (8, 8, 1), 0, [rows(2), D]),
             ("sampledown", (8, 8, 1), 0, [rows(6), D]),
             ("batch", (9, 6, 1), 3, [P(9, 6, 3), P(9, 6, 3)]), ("batchdown", (8, 16, 1), 0, [D, D, D]),
             ("restore", (2, 2, 1), 2, [rows(4), rows(4)]), ("restore", (4, 4, 1), 4, [rows(8), rows(16)])]
    ls, r = tlc.laws("CorruptX", [dict(parts=p) for _, _, _, p in cases])
    c.tlc(r, "CorruptX")
    N = 300_000 if c.thorough else 40_000

    def corner(y):
        """Corner of the zero square (its extent is the traces' business)."""
        z = y[..., 0] == 0
        return jnp.stack([jnp.argmax(z.any(axis=1)), jnp.argmax(z.any(axis=0))])

    def factor(y, x):
        """Distinct values in the first column tell the factor."""
        col = y[:, 0, 0]
        m = 1 + jnp.sum(col[1:] != col[:-1])
        return jnp.where(m == x.shape[0] // 8, 8, jnp.where(m == x.shape[0] // 4, 4, -1))[None]
    for t, ((what, shape, s, parts), law) in enumerate(zip(cases, ls)):
        h, w, ch = shape
        n = next((p["n"] for p in parts if p["what"] == "row"), 4)
        code = jnp.arange(1, h * w + 1, dtype=jnp.float32).reshape(h, w, 1) / 1024 + jnp.zeros(ch)
        xs = jnp.arange(1, n + 1, dtype=jnp.float32)[:, None, None, None] + code
        row = lambda x: jnp.floor(x[-1, -1, 0]).astype(int)[None] - 1
        if what == "paint":
            d = dataset("inpaint-%d" % s, shape)
            f = lambda k: corner(d.corrupt(k, jnp.ones(shape)))
        elif what == "down":
            d = dataset("supr", shape)
            f = lambda k: factor(d.corrupt(k, xs[0]), xs[0])
        elif what == "blur":
            d = dataset("deconv-%d" % s, shape)
            one = jnp.zeros(shape).at[h // 2, w // 2].set(1.)

            def f(k):
                y = d.corrupt(k, one)      # weight e^{-za^2/v} beside the middle
                v = (2 / (s - 1)) ** 2 / -jnp.log(y[h // 2, w // 2 + 1, 0])
                return jnp.clip(jnp.floor((v - 0.1) / 4.9 * 8), -1, 8).astype(int)[None]
        elif what == "sample":
            d = dataset("inpaint-%d" % s, shape, xs)

            def f(k):
                x, y = d.sampler(k)
                return jnp.concatenate([row(x), corner(y)])
        elif what == "sampledown":
            d = dataset("supr", shape, xs)

            def f(k):
                x, y = d.sampler(k)
                return jnp.concatenate([row(x), factor(y, x)])
        elif what in ("batch", "batchdown"):
            q = len(parts)
            d = dataset("inpaint-%d" % s if what == "batch" else "supr", shape, xs)

            def f(k):
                x, y = d.enumerate_subset(0, [jnp.arange(q)], k)
                return jnp.concatenate([corner(y[i]) if what == "batch" else factor(y[i], x[i]) for i in range(q)])
        else:
            class R(ImageRestore):
                def __init__(self):
                    self.xs, self.n = xs, n
                    super().__init__("supr-%d" % s, shape)
            d = R()

            def f(k):
                x, _, mask = d.sampler(k)
                return jnp.concatenate([row(x), mask.obs_inds_ravelled.astype(int)])
        m = N // 8 if what == "blur" or h > 20 else N
        out, err = rec.observe(lambda: np.asarray(jax.jit(jax.vmap(f))(jax.random.split(jax.random.PRNGKey(c.seed * 100 + t), m))))
        name = "%s of %s images (%d)" % (what, list(shape), s)
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(out.astype(int)), law, m)
        c.count("law_cases")
        c.count("law_draws", m)
        if not ok:
            c.violation("law of the %s: %s" % (name, msg), dict(case=name))


def body(c):
    r = tlc.check("CorruptMC", "SPECIFICATION Spec\nCONSTANTS HMAX=%d MMAX=%d\nINVARIANTS Size Origin Inside Sides Removed Idempotent Ordered\nCHECK_DEADLOCK FALSE\n" %
                  ((9, 40) if c.thorough else (8, 24)), workers=8, timeout=1800)
    c.tlc(r, "CorruptMC")
    import fbs.data.images  # noqa
    rng = np.random.default_rng(c.seed + 29)
    m = 10 if c.thorough else 1
    tp = [squares(rng, j) for j in range(12 * m)]
    td = [reductions(rng, j) for j in range(8 * m)]
    tb = [blurs(rng, j) for j in range(10 * m)]
    to = [others(rng, j) for j in range(9 * m)]
    tc.validate(c, "CorruptTrace", tp + td + tb + to, canaries(tp, td, tb, to), timeout=1800)
    laws(c)
    c.cov["samples"] = [s for s in c.cov["samples"] if len(str(s)) < 20000]


report.main("C29", body)
