import _path  # noqa
import os
import shutil
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, lawtest, tracecheck as tc


def make(rng, n, tail):
    from fbs.data.base import Dataset

    class D(Dataset):
        def __init__(self):
            self.n = n
            m = int(np.prod(tail)) if tail else 1
            x = np.arange(n, dtype=np.float32)[:, None] + np.arange(m, dtype=np.float32)[None, :] / 64
            self.xs = jnp.asarray(x.reshape((n, *tail)))
    return D()


def rows(x, tail):
    """Row numbers, -1 for a row whose entries do not belong together."""
    x = np.asarray(x, np.float64)
    m = int(np.prod(tail)) if tail else 1
    if x.ndim == 0 or x[:1].size != m:
        return [-2]
    x = x.reshape(x.shape[0], m)
    r = np.floor(x[:, 0] + 1e-9)
    ok = np.abs(x - r[:, None] - np.arange(m) / 64).max(axis=1) < 1e-6
    return [int(a) if b else -1 for a, b in zip(r, ok)]


def history(rng, j):
    n = int(rng.integers(1, 14)) if j % 3 else int(rng.integers(20, 80))
    tail = [(2,), (1,), (2, 3), (4, 4, 1)][j % 4]
    ev, old = [], []

    def go():
        d = make(rng, n, tail)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))
        for step in range(12):
            key, k = jax.random.split(key)
            a = rng.random()
            if not old or a < 0.25:
                B = int(rng.integers(1, n + 1)) if rng.random() < 0.7 else min(n, int(rng.integers(1, 4)))
                r = d.init_enumeration(k, B)
                p = [np.asarray(z).ravel().tolist() for z in r]
                ev.append(dict(e="init", B=B, perm=p))
                old.append((r, p))
            elif a < 0.65:
                p = old[-1][1]
                i = int(rng.integers(len(p)))
                ev.append(dict(e="enum", i=i, rows=rows(d.enumerate_subset(i), tail)))
            elif a < 0.8:
                r, p = old[int(rng.integers(len(old)))]
                i = int(rng.integers(len(p)))
                ev.append(dict(e="enumold", i=i, want=p[i], rows=rows(d.enumerate_subset(i, r) if step % 2 else d.enumerate_subset(i, perm_inds=r, key=k), tail)))
            else:
                B = int(rng.integers(1, n + 1))
                x = d.draw_subset(k, B)
                ev.append(dict(e="subset", B=B, rows=rows(x, tail), ndim=int(np.ndim(x))))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(n=n), ev=ev, info=dict(dataset="in memory", n=n, tail=list(tail)))


def pix(n, h, w, c):
    """Pixel (a, b) of row r, channel k: 1 + code, exact in single precision."""
    m = h * w
    return (1 + np.arange(n)[:, None, None, None] * m + (np.arange(h)[:, None] * w + np.arange(w)[None, :])[None, :, :, None]
            + np.zeros(c)).astype(np.float32) + (np.arange(c) / 8).astype(np.float32)


def pairs(rng, j):
    """Rows and their corrupted images, from enumeration and from sampling."""
    from fbs.data.images import Image
    h, w, c = [(8, 8, 1), (8, 16, 1), (16, 8, 3)][j % 3]
    n = int(rng.integers(4, 9))
    s = int(rng.integers(1, 7))
    task = ["inpaint-%d" % s, "supr", "none"][(j // 3) % 3]
    ev = []

    class D(Image):
        def __init__(self):
            self.n, self.image_shape, self.task = n, (h, w, c), task
            self.xs = jnp.asarray(pix(n, h, w, c))

    def img(z):
        """Channels agree: the pixel codes; otherwise something no image has."""
        z = np.asarray(z, np.float64)
        if z.shape != (h, w, c):
            return [[-7]]
        q = np.where(z == 0, 0, z - np.arange(c) / 8)
        q = np.where(q == np.round(q), q, -5)
        q = np.where((q == q[..., :1]).all(axis=-1), q[..., 0], -6)
        return q.astype(int).tolist()

    def go():
        d = D()
        key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))

        def pair(x, y):
            X = img(x)
            r = (X[0][0] - 1) // (h * w)
            if not 0 <= r < n or X != img(pix(n, h, w, c)[r]):
                r = -1
            ev.append(dict(e="pair", row=r, x=X, y=img(y), task="paint" if task[0] == "i" else "down", s=s))
            return r
        for ep in range(2):
            key, k1, k2 = jax.random.split(key, 3)
            B = int(rng.integers(1, n + 1))
            perm = [np.asarray(z).tolist() for z in d.init_enumeration(k1, B)]
            ev.append(dict(e="init", B=B, perm=perm))
            i = int(rng.integers(len(perm)))
            xs, ys = d.enumerate_subset(i, key=k2) if task != "none" else d.enumerate_subset(i)
            got = [(img(x)[0][0] - 1) // (h * w) for x in np.asarray(xs)]
            ev.append(dict(e="enum", i=i, rows=got))
            if task == "none":
                ev.append(dict(e="none", none=ys is None))
            elif len(ys) != len(xs):
                ev.append(dict(e="short", clause="one corrupted image per row"))
            else:
                for x, y in list(zip(xs, ys))[:3]:
                    pair(x, y)
        if task != "none":
            for k in jax.random.split(key, 4):
                pair(*d.sampler(k))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(n=n), ev=ev, info=dict(dataset="images with corruption", task=task, image_shape=[h, w, c], n=n))


def files(rng, scratch, which):
    """Train and test sets of one file, every row numbered and recognisable."""
    from fbs.data import images as I
    ev = []

    def rows_of(total, m):
        r = np.arange(total)
        base = (r[:, None] * 31 + np.arange(m)[None, :] * 17) % 251
        base[:, 0], base[:, 1] = r // 251, r % 251
        return base.astype(np.uint8)

    def number(x, ref, n):
        """Row numbers; clean = every row is the row of the file it claims to be."""
        x = np.asarray(x)
        if x.shape != (n, *ref.shape[1:]):
            return [], False
        f, g = x.reshape(n, -1), ref.reshape(ref.shape[0], -1)
        r = np.round(f[:, 0]).astype(int) * 251 + np.round(f[:, 1]).astype(int)
        ok = (r >= 0) & (r < len(g))
        return r.tolist(), bool(ok.all() and np.array_equal(f.astype(np.float32), g[r].astype(np.float32)))
    path = os.path.join(scratch, which)
    key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))
    if "MNIST" in which:
        tr, te = rows_of(60000, 784).reshape(-1, 28, 28), rows_of(10000, 784).reshape(-1, 28, 28)
        np.savez(path, X=tr, X_test=te)
        path, shared, total, nt, ns = path + ".npz", False, 0, 60000, 10000
        tr, te = tr[..., None], te[..., None]
    elif which == "CIFAR10":
        tr, te = rows_of(50000, 3072).reshape(-1, 32, 32, 3), rows_of(10000, 3072).reshape(-1, 32, 32, 3)
        np.savez(path, train_data=tr, test_data=te)
        path, shared, total, nt, ns = path + ".npz", False, 0, 50000, 10000
    else:
        tr = te = rows_of(30000, 12).reshape(-1, 2, 2, 3)
        np.save(path, tr)
        path, shared, total, nt, ns = path + ".npy", True, 30000, 29000, 1000
    kw = dict(resolution=2) if shared else {}

    def go():
        cls = getattr(I, which)
        a, b = cls(key, path, test=False, **kw), cls(key, path, test=True, **kw)
        ra, ca = number(a.xs, tr, nt)
        rb, cb = number(b.xs, te, ns)
        ev.append(dict(e="split", clean=ca and cb, train=ra, test=rb, ntrain=int(a.n), ntest=int(b.n), shared=shared, total=total))
        ev[0]["ntrain"], ev[0]["ntest"] = (nt, ns) if (a.n, b.n) == (nt, ns) else (-1, -1)
    _, err = rec.observe(go)
    os.remove(path)
    if err:
        ev.append(err)
    return dict(c=dict(n=1), ev=ev, info=dict(dataset=which))


def canaries(th, tp, tf):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in th[:8]:
        add(t, "batch", lambda e: e["e"] == "init" and len(e["perm"]) > 1, lambda e: e["perm"][0].__setitem__(0, e["perm"][1][0]))
        add(t, "rows", lambda e: e["e"] == "enum" and len(e["rows"]) > 1, lambda e: e["rows"].reverse())
        add(t, "subset", lambda e: e["e"] == "subset" and len(e["rows"]) > 1, lambda e: e["rows"].__setitem__(0, e["rows"][1]))
    for t in tp[:9]:
        add(t, "pixel", lambda e: e["e"] == "pair", lambda e: e["y"][0].__setitem__(0, e["x"][-1][-1]))
    add(tf[-1], "split", lambda e: e["e"] == "split", lambda e: e["train"].__setitem__(0, e["test"][0]))
    return out


def laws(c, rng):
    cases = [("epoch", 4, 2), ("epoch", 5, 2), ("epoch", 3, 1), ("epoch", 4, 4), ("subset", 4, 2), ("subset", 3, 3), ("subset", 6, 1), ("subset", 5, 3)]
    ls, r = tlc.laws("DatasetX", [dict(n=n // b * b if w == "epoch" else n, k=n // b * b if w == "epoch" else b) for w, n, b in cases])
    c.tlc(r, "DatasetX")
    N = 400_000 if c.thorough else 60_000
    for t, ((what, n, b), law) in enumerate(zip(cases, ls)):
        d = make(rng, n, (2,))
        f = (lambda k: jnp.concatenate([jnp.ravel(z) for z in d.init_enumeration(k, b)])) if what == "epoch" else (lambda k: d.draw_subset(k, b)[:, 0].astype(int))
        out, err = rec.observe(lambda: np.asarray(jax.jit(jax.vmap(f))(jax.random.split(jax.random.PRNGKey(c.seed * 100 + t), N))))
        name = "%s of %d rows, size %d" % (what, n, b)
        if err:
            c.violation(name + ": " + err["clause"], err)
            continue
        ok, msg = lawtest.compare(lawtest.outcome_counts(out.astype(int)), law, N)
        c.count("law_cases")
        c.count("law_draws", N)
        if not ok:
            c.violation("law of the %s: %s" % (name, msg), dict(case=name))


def body(c):
    r = tlc.check("DatasetMC", "SPECIFICATION Spec\nCONSTANTS NROWS=%d MAXE=%d\nINVARIANTS Once Whole Dropped\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 4, 2), workers=8)
    c.tlc(r, "DatasetMC")
    import fbs.data.base  # noqa
    rng = np.random.default_rng(c.seed + 22)
    m = 10 if c.thorough else 1
    th = [history(rng, j) for j in range(30 * m)]
    tp = [pairs(rng, j) for j in range(9 * m)]
    scratch = tempfile.mkdtemp(prefix="verif-c22-")
    try:
        tf = [files(rng, scratch, w) for w in (["MNIST", "CIFAR10", "CelebAHQ", "MNISTRestore", "CelebAHQRestore"])]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    tc.validate(c, "DatasetTrace", th + tp + tf, canaries(th, tp, tf), timeout=1800)
    laws(c, rng)
    c.cov["samples"] = [s for s in c.cov["samples"] if len(str(s)) < 20000]


report.main("C22", body)
