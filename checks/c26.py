import _path  # noqa
import numpy as np
import jax
import jax.numpy as jnp
import flax.linen as linen
from fractions import Fraction as Fr
from lib import report, tlc, rec, moments, small as sm, tracecheck as tc
from lib.obs import obs, rat

SAME, APART = 1e-3, 3e-3


class Classes:
    """Outputs equal up to rounding share a number."""

    def __init__(self):
        self.reps = []

    def __call__(self, y):
        y = np.asarray(y, np.float64).ravel()
        if y.size == 0 or not np.all(np.isfinite(y)):
            return -1
        best = None
        for i, r in enumerate(self.reps):
            if r.shape == y.shape:
                d = np.max(np.abs(r - y)) / max(np.max(np.abs(r)), 1e-6)
                if best is None or d < best[0]:
                    best = (d, i)
        if best is not None and best[0] <= SAME:
            return best[1]
        if best is not None and best[0] <= APART:
            return -2 - best[1]
        self.reps.append(y)
        return len(self.reps) - 1


def draw_params(rng, net, *args):
    """Generic parameters of the network's own layout (no compilation of its initialiser)."""
    shapes = jax.eval_shape(net.init, jax.random.PRNGKey(0), *args)
    return jax.tree_util.tree_map(
        lambda a: jnp.asarray(rng.normal(size=a.shape) / np.sqrt(np.prod(a.shape[:-1])) if len(a.shape) > 1 else 0.4 + 0.3 * rng.normal(size=a.shape), jnp.float32), shapes)


UNETS = [dict(h=4, w=4, C=1, dim=8, groups=4, mults=[1], up="pixel_shuffle"),
         dict(h=4, w=8, C=3, dim=4, groups=2, mults=[1, 2], up="resize"),
         dict(h=8, w=4, C=2, dim=4, groups=2, mults=[1, 2], up="pixel_shuffle", init=6, lv=True),
         dict(h=6, w=6, C=1, dim=6, groups=3, mults=[2, 1], up="resize", out=2),
         dict(h=8, w=12, C=1, dim=4, groups=4, mults=[1, 2, 4], up="pixel_shuffle", out=3, init=8),
         dict(h=4, w=4, C=2, dim=4, groups=2, mults=[3, 1, 2], up="resize"),
         dict(h=5, w=7, C=3, dim=4, groups=1, mults=[2], up="resize"),
         dict(h=8, w=8, C=1, dim=8, groups=8, mults=[1, 1, 1, 1], up="pixel_shuffle"),
         dict(h=12, w=12, C=1, dim=4, groups=2, mults=[1, 2, 3], up="resize", lv=True),
         dict(h=2, w=16, C=4, dim=10, groups=5, mults=[1, 2], up="pixel_shuffle")]
NEWT = [Fr(1, 2), Fr(3, 2), Fr(3), Fr(5), Fr(8)]


def unet_trace(rng, u, wrapper):
    from fbs.nn.unet import UNet
    dt = [Fr(1, 4), Fr(1, 2), Fr(2)][int(rng.integers(3))]
    mk = lambda d: UNet(dt=float(d), dim=u["dim"], upsampling=u["up"], dim_mults=tuple(u["mults"]), resnet_block_groups=u["groups"],
                        **{k: v for k, v in (("init_dim", u.get("init")), ("out_dim", u.get("out")), ("learnt_variance", u.get("lv"))) if v is not None})
    c = dict(kind="unet", h=u["h"], w=u["w"], mults=u["mults"], dim=u["dim"], init=u.get("init", u["dim"]), groups=u["groups"],
             out=u.get("out", u["C"] * (2 if u.get("lv") else 1)))
    ev = []

    def go():
        imgs = jnp.asarray(rng.normal(size=(6, u["h"], u["w"], u["C"])), jnp.float32)
        ts = [n * dt for n in NEWT]
        net, cl = mk(dt), Classes()
        if wrapper:
            from fbs.nn.base import make_st_nn
            arr, todict, fwd = make_st_nn(jax.random.PRNGKey(int(rng.integers(1000))), net, (u["h"], u["w"], u["C"]), 2)
            ps = [todict(arr), todict(arr + jnp.asarray(0.3 * rng.normal(size=arr.shape), jnp.float32))]
        else:
            ps = [draw_params(rng, net, imgs[:2], jnp.ones(2)) for _ in range(2)]
        runs = {d: jax.jit(mk(d).apply) for d in (dt, 2 * dt)}

        def call(p, idx, tt, d=dt, single=False, g=None):
            x = imgs[idx[0]] if single else imgs[jnp.asarray(idx)]
            t = jnp.asarray(float(tt[0])) if single or len(tt) == 1 and len(idx) != 1 else jnp.asarray([float(z) for z in tt], jnp.float32)
            y, err = rec.observe(lambda: np.asarray((g or runs[d])(ps[p], x, t)))
            if err:
                ev.append(err)
                return
            full = y.shape
            ys = [y] if single else list(y)
            ev.append(dict(e="call", n=0 if single else len(idx), p=p, x=[int(i) for i in idx], t=[rat(z) for z in tt], dt=rat(d), shape=list(full), cls=[cl(z) for z in ys]))
        pt = lambda k: [ts[int(z)] for z in rng.integers(0, len(ts), k)]
        call(0, [0, 1, 2], [ts[0]])
        call(0, [2, 3, 0], [ts[0], ts[1], ts[1]])
        call(0, [4], [ts[1]])
        call(0, [1], [ts[1]], single=True)
        for _ in range(3):
            call(int(rng.integers(2)), [int(z) for z in rng.permutation(6)[:3]], pt(3))
            call(int(rng.integers(2)), [int(z) for z in rng.permutation(6)[:3]], pt(1))
            call(int(rng.integers(2)), [int(z) for z in rng.permutation(6)[:1]], pt(1), single=True)
        call(0, [1, 1, 1], [ts[0], ts[1], ts[2]])
        call(0, [0, 3, 5], [2 * ts[0], 2 * ts[1], 2 * ts[2]], d=2 * dt)
        if wrapper:
            from jax.flatten_util import ravel_pytree
            f = jax.jit(fwd)
            g = lambda p, x, t: f(x, t, ravel_pytree(p)[0])
            call(0, [0, 3, 1], [ts[1], ts[0], ts[2]], g=g)
            call(1, [0, 3, 1], [ts[1], ts[0], ts[2]], g=g)
            call(1, [2], [ts[1]], single=True, g=g)
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(net="UNet", wrapper=wrapper, **u))


def mlp_trace(rng, j):
    from fbs.nn import models as M
    which = ["CrescentMLP", "GMSBMLP", "MNISTResConv", "MNISTResConv"][j % 4]
    dt = Fr(1, 2)
    d = 784 if which == "MNISTResConv" else int(rng.integers(2, 5))
    mk = lambda q: {"CrescentMLP": lambda: M.CrescentMLP(dt=float(q), dim=d), "GMSBMLP": lambda: M.GMSBMLP(dim=d, dt=float(q)),
                    "MNISTResConv": lambda: M.MNISTResConv(dt=float(q), decoder="pixel_shuffle" if j % 8 < 4 and j % 4 == 2 else "resize")}[which]()
    ev, cl = [], Classes()

    def go():
        xs = jnp.asarray(rng.normal(size=(5, d)), jnp.float32)
        ts = [n * dt for n in NEWT]
        conv = which == "MNISTResConv"
        ps = [draw_params(rng, mk(dt), xs[:2], jnp.array(1.) if conv else jnp.ones(2)) for _ in range(2)]
        runs = {q: jax.jit(mk(q).apply) for q in (dt, 2 * dt)}

        def call(p, idx, tt, q=dt):
            t = jnp.asarray(float(tt[0])) if len(tt) == 1 else jnp.asarray([float(z) for z in tt], jnp.float32)
            y, err = rec.observe(lambda: np.asarray(runs[q](ps[p], xs[jnp.asarray(idx)], t)))
            if err:
                ev.append(err)
                return
            ys = y.reshape(len(idx), -1) if y.size == len(idx) * d else []
            ev.append(dict(e="flat", p=p, x=idx, t=[rat(z) for z in tt], dt=rat(q), size=int(y.size), cls=[cl(z) for z in ys]))
        for r in range(4):
            tt = [ts[int(z)] for z in rng.integers(0, 4, 3)]
            idx = [int(z) for z in rng.permutation(5)[:3]]
            call(r % 2, idx, tt[:1])
            if not conv:
                call(r % 2, idx[::-1], tt)
        call(0, [3], ts[1:2])
        call(0, [1, 2, 3], ts[1:2])
        call(0, [1, 2, 0], [2 * ts[1]], 2 * dt)
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(kind="mlp", osize=d), ev=ev, info=dict(net=which, d=d))


def shuffle_trace(rng, j):
    from fbs.nn.utils import PixelShuffle
    s = 1 + j % 3
    C = int(rng.integers(1, 4))
    c = dict(kind="shuffle", s=s, k=s * s * C, b=int(rng.integers(1, 3)), h=int(rng.integers(1, 4)), w=int(rng.integers(1, 4)))
    x = jnp.arange(c["b"] * c["h"] * c["w"] * c["k"], dtype=jnp.float32).reshape(c["b"], c["h"], c["w"], c["k"])
    y, err = rec.observe(lambda: np.asarray(PixelShuffle(scale=s).apply({}, x)))
    ev = [err] if err else [dict(e="shuffle", shape=list(y.shape), out=y.astype(int).tolist())]
    return dict(c=c, ev=ev, info=dict(fn="PixelShuffle", **c))


def embed_trace(rng, j):
    from fbs.nn import sinusoidal_embedding as E
    half, r = [(2, 100), (3, 100), (5, 10), (4, 2), (6, 2), (3, 5), (2, 10000), (32, 1)][j % 8]
    period = r ** (half - 1)
    ev = []
    q = lambda z: rec.quant(z, 16384) if np.ndim(z) == 1 else []

    def go():
        kw = dict(out_dim=2 * half) if period == 10000 else dict(out_dim=2 * half, max_period=period)
        f = jax.jit(lambda t: E(t, **kw)) if j % 2 else (lambda t: E(t, **kw))
        for _ in range(3):
            t = Fr(int(rng.integers(-16, 17)), 16)
            ev.append(dict(e="embed", t=rat(t), v=q(f(jnp.float32(float(t))))))
        for hi in (3, 50, 400):
            u, v = [Fr(int(z), 4) for z in rng.integers(-4 * hi, 4 * hi, 2)]
            ev.append(dict(e="add", u=q(f(jnp.float32(float(u)))), v=q(f(jnp.float32(float(v)))), w=q(f(jnp.float32(float(u + v))))))
        y, err = rec.observe(lambda: E(jnp.float32(0.5), out_dim=2 * half + 1))
        ev.append(dict(e="refused", ok=err is not None))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(kind="embed", half=half, r=r), ev=ev, info=dict(fn="sinusoidal_embedding", out_dim=2 * half, max_period=period))


INTS = lambda key, shape: jax.random.randint(key, shape, -9, 10).astype(jnp.float32)


class Lin(linen.Module):
    dout: int

    @linen.compact
    def __call__(self, x, t):
        A = self.param("A", INTS, (x.shape[-1], self.dout))
        b = self.param("b", INTS, (self.dout,))
        return x @ A + jnp.asarray(t)[..., None] * b


class LinCat(linen.Module):
    dout: int

    @linen.compact
    def __call__(self, z):
        A = self.param("z_A", INTS, (z.shape[-1], self.dout))
        b = self.param("b", INTS, (self.dout,))
        return z @ A + b


def ints(m):
    return np.asarray(np.rint(np.asarray(m)), int).tolist()


def leaves(d, names):
    d = d["params"] if "params" in d else d
    return [ints(d[n]) for n in names]


def wrap_trace(rng, j):
    kind = ["st", "simple", "wt"][j % 3]
    d, m = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    B = int(rng.integers(1, 4))
    sc = Fr(int(rng.choice([1, 2, 3])), int(rng.choice([1, 2, 4])))
    c = dict(kind=kind, din=d + 1 if kind == "wt" else d, dout=m, scale=rat(sc))
    names = ("z_A", "b") if kind == "wt" else ("A", "b")
    ev = []

    def go():
        key = jax.random.PRNGKey(int(rng.integers(10000)))
        if kind == "wt":
            from fbs.nn import make_nn_with_time
            net = LinCat(m)
            arr, todict, fwd = make_nn_with_time(net, d, B, float(sc), key)
            want = net.init(key, jnp.ones((B, d + 1)))
        else:
            net = Lin(m)
            want = net.init(key, jnp.ones((B, d)), jnp.ones((B,)))
            if kind == "st":
                from fbs.nn import make_st_nn
                arr, todict, fwd = make_st_nn(key, net, (d,), B)
            else:
                from fbs.nn.models import make_simple_st_nn
                _, dic, arr, todict, fwd = make_simple_st_nn(key, (d,), B, net)
        n = int(np.size(arr))
        A, b = leaves(todict(jnp.arange(n, dtype=arr.dtype)), names)
        ev.append(dict(e="layout", n=n, A=A, b=b))
        wA, wb = leaves(want, names)
        gA, gb = leaves(todict(arr), names)
        ev.append(dict(e="init", A=gA, b=gb, wA=wA, wb=wb))
        if kind == "simple":
            gA, gb = leaves(dic, names)
            ev.append(dict(e="init", A=gA, b=gb, wA=wA, wb=wb))
        f = jax.jit(fwd) if j % 2 else fwd
        for r in range(4):
            p = [int(z) for z in rng.integers(-9, 10, n)] if r else ints(arr)
            P = jnp.asarray(p, jnp.float32) if r else arr
            k = int(rng.integers(1, 4))
            X = [[Fr(int(z), 4) for z in rng.integers(-8, 9, d)] for _ in range(k)]
            t = [Fr(int(z), 4) for z in rng.integers(-8, 9, k)]
            F = lambda z: jnp.asarray(np.array(z, dtype=float), jnp.float32)
            if kind == "wt":
                if r % 2:
                    y = f(F(X), F(t)[:, None], P)
                else:
                    y = jnp.stack([jnp.asarray(f(F(x), F(s), P)) for x, s in zip(X, t)])
            elif r == 1:
                t = t[:1]
                y = f(F(X), F(t[0]), P)
            elif r == 2:
                X, t = X[:1], t[:1]
                y = f(F(X[0]), F(t[0]), P)[None]
            else:
                y = f(F(X), F(t), P)
            y = np.asarray(y)
            o = [[obs(v, 16, 24) for v in row] for row in y] if y.shape == (len(X), m) else []
            ev.append(dict(e="wt" if kind == "wt" else "st", p=p, x=[[rat(z) for z in x] for x in X], t=[rat(z) for z in t], y=o))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=c, ev=ev, info=dict(fn={"wt": "make_nn_with_time", "st": "make_st_nn", "simple": "make_simple_st_nn"}[kind], d=d, m=m))


def canaries(tu, tm, ts, te, tw):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in tu[:2]:
        add(t, "shape", lambda e: e["e"] == "call", lambda e: e.update(shape=e["shape"][:-1] + [e["shape"][-1] + 1]))
        add(t, "mixed batch", lambda e: e["e"] == "call" and len(set(e["cls"])) > 1, lambda e: e.update(cls=e["cls"][::-1]))
        add(t, "leak", lambda e: e["e"] == "call" and e["n"] == 0 and e["x"] == [1], lambda e: e.update(cls=[99]))
        add(t, "time ignored", lambda e: e["e"] == "call" and e["x"] == [1, 1, 1], lambda e: e.update(cls=[e["cls"][0]] * 3))
    for t in tm[:2]:
        add(t, "mixed batch", lambda e: e["e"] == "flat" and len(set(e["cls"])) > 1, lambda e: e.update(cls=e["cls"][::-1]))
    for t in ts[:3]:
        add(t, "shuffle", lambda e: e["e"] == "shuffle" and np.size(e["out"]) > 1, lambda e: e.update(out=(np.max(e["out"]) - np.array(e["out"])).tolist()))
    for t in te[:3]:
        add(t, "sine", lambda e: e["e"] == "embed", lambda e: e["v"].__setitem__(0, e["v"][0] + 40))
        add(t, "sum", lambda e: e["e"] == "add", lambda e: e["w"].__setitem__(0, e["w"][0] + 40))
    for t in tw[:3]:
        add(t, "layout", lambda e: e["e"] == "layout", lambda e: e["b"].__setitem__(0, e["A"][0][0]))
        add(t, "init", lambda e: e["e"] == "init", lambda e: e["b"].__setitem__(0, e["b"][0] + 1))
        add(t, "value", lambda e: e["e"] in ("st", "wt"), lambda e: e["y"][0].__setitem__(0, [e["y"][0][0][0] + 30, e["y"][0][0][1]]))
    return out


def body(c):
    hm = (8, 3, 2) if not c.thorough else (16, 4, 3)
    r = tlc.check("NetsMC", "SPECIFICATION Spec\nCONSTANTS HMAX=%d LMAX=%d MMAX=%d\nINVARIANTS StuckIff Restores Joins LastJoin Groups Depth\nCHECK_DEADLOCK FALSE\n" % hm, workers=8, timeout=3000)
    c.tlc(r, "NetsMC")
    import fbs.nn.unet  # noqa
    rng = np.random.default_rng(c.seed + 26)
    m = 8 if c.thorough else 1
    pick = list(range(len(UNETS))) if c.thorough else [int(z) for z in rng.permutation(len(UNETS))[:3]]
    tu = [unet_trace(rng, UNETS[i], False) for i in pick for _ in range(2 if c.thorough else 1)]
    tu += [unet_trace(rng, UNETS[i], True) for i in (pick if c.thorough else [int(rng.integers(2))])]
    tm = [mlp_trace(rng, j) for j in range(8 if c.thorough else 4)]
    ts, te, tw = [shuffle_trace(rng, j) for j in range(9 * m)], [embed_trace(rng, j) for j in range(8 * m)], [wrap_trace(rng, j) for j in range(18 * m)]
    tc.validate(c, "NetsTrace", tu + tm + ts + te + tw, canaries(tu, tm, ts, te, tw), timeout=1800)


report.main("C26", body)
