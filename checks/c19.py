import _path  # noqa
import math
import numpy as np
import jax
import jax.numpy as jnp
from fractions import Fraction as Fr
from lib import report, tlc, rec, moments, tracecheck as tc
from lib.obs import obs, rat, rats
from lib.sdeconf import config, clock, build, header, LN2

DX = 4096.0


class Net:
    """Returns the target plus integer errors; remembers what it was asked.  The target is the conditional score given
    x0, or (second pass over the same paths) a function of the time known from the first pass."""

    def __init__(self, disc, t0, x0s, errs, param, target=None):
        self.disc, self.t0, self.x0s, self.errs, self.param, self.log = disc, t0, x0s, errs, param, []
        self.target = target

    def __call__(self, x, t, param):
        def f(x, t, p):
            n = self.x0s.shape[0]
            F, Q = [np.asarray(z, np.float64) for z in self.disc(jnp.asarray(t), jnp.float32(self.t0))]
            t = np.asarray(t, np.float64)
            if x.shape != self.x0s.shape or t.shape not in ((), (n,)):
                raise AssertionError("network evaluated at shapes %s, %s" % (x.shape, t.shape))
            e = self.errs[len(self.log) % len(self.errs)]
            b = lambda z: np.reshape(z, (-1,) + (1,) * (x.ndim - 1)) if z.ndim else z
            xf = x.astype(np.float64)
            self.log.append((t, F, Q, xf, e, float(np.asarray(p)) == self.param))
            tgt = -(xf - b(F) * self.x0s) / b(Q) if self.target is None else self.target(float(t))
            return (tgt + e).astype(np.float32)
        return rec.call(f, rec.f32(x.shape), x, t, param)


def trace(rng, linear, j, R0):
    while True:
        c, _ = config(rng)
        if c.get("al", 1) > 0 and (c["cls"] != "lin" or c["bmin"] + c["bmax"] > 0):
            break
    kind = ["score", "ipf", "save_mem", "ou", "ipf-score"][j % 5]
    if (kind == "ou") != (c["cls"] == "ou"):
        c = dict(cls="ou" if kind == "ou" else "const", al=Fr(int(rng.choice([1, 2]))), V=Fr(int(rng.integers(1, 4)), 2), start=Fr(int(rng.integers(-2, 5)), 2))
    rand = bool((j // 5) % 2)
    shape = (2,) if kind == "ou" else [(2,), (2, 2), (3,), (1, 2, 1)][(j // 5) % 4]
    m = int(np.prod(shape))
    J = int(rng.integers(2, 6))
    t0 = c["start"]
    if c["cls"] == "lin":
        t0, T, rational = c["t0"], c["T"], False
    elif c["cls"] == "exp":
        T, rational = t0 + Fr(J, 2), False
    else:
        T, rational = t0 + J * Fr(int(rng.choice([1, 1, 2]))) / abs(c["al"]) if J < 4 else t0 + J / abs(c["al"]), True
    c = dict(c, start=t0)
    jit = j % 3 == 1
    ev = []

    def go():
        sde, disc, u = build(c, linear)
        param = 3.5
        n = J if kind == "save_mem" else 5
        x0s = rng.integers(-3, 4, (n, *shape)).astype(np.float64)
        E = [rng.integers(-2, 4, (n, *shape)) for _ in range(J)]
        Z = [np.zeros((n, *shape))]

        def loss(net, x0s, key):
            if kind == "ou":
                f = linear.make_ou_score_matching_loss(-LN2 * float(c["al"]), math.sqrt(2 * LN2 * float(c["al"] * c["V"])), net, t0=float(t0), T=float(T),
                                                       nsteps=J, random_times=rand)
            else:
                f = linear.make_linear_sde_law_loss(sde, net, t0=float(t0), T=float(T), nsteps=77 if kind == "save_mem" else J, random_times=rand,
                                                    save_mem=kind == "save_mem", **(dict(loss_type=kind) if kind[:3] == "ipf" else {}))
            f = jax.jit(f) if jit else f
            v = np.asarray(f(jnp.float32(param), key, jnp.asarray(x0s, jnp.float32)))
            return v
        key = jax.random.PRNGKey(int(rng.integers(2 ** 30)))

        def first_pass(x0s, key):
            """Times, states and transitions of the paths under this key, for the losses whose target looks one step back."""
            net = Net(disc, float(t0), x0s, [np.zeros(x0s.shape)], param)
            loss(net, x0s, key)
            log = sorted(net.log, key=lambda r: float(r[0]))
            tt, xx = [float(t0)] + [float(r[0]) for r in log], [x0s] + [r[3] for r in log]
            FQ = [[float(z) for z in disc(jnp.float32(b), jnp.float32(a))] for a, b in zip(tt[:-1], tt[1:])]

            def target(t):
                k = int(np.argmin(np.abs(np.array(tt[1:]) - t)))
                F, Q = FQ[k]
                return xx[k + 1] + F * xx[k] - F * xx[k + 1] if kind == "ipf" else -(xx[k + 1] - F * xx[k]) / Q
            return target, min(q for _, q in FQ)

        if kind == "ipf-score":     # well-conditioned time grids
            best = max([(first_pass(x0s, k)[1], i) for i, k in enumerate(jax.random.split(key, 12 if rand else 1))])
            if best[0] > 0:
                key = jax.random.split(key, 12 if rand else 1)[best[1]]

        def run(errs, x0s, key, disp=None, noise=False):
            net = Net(disc, float(t0), x0s, errs, param, first_pass(x0s, key)[0] if kind[:3] == "ipf" and disp is None else None)
            v = loss(net, x0s, key)
            rows = []
            for t, F, Q, x, e, pok in sorted(net.log, key=lambda r: float(np.min(r[0]))):      # independent evaluations: in order of time
                t, F, Q = [np.broadcast_to(z, (x.shape[0],)) if kind == "save_mem" else z for z in (t, F, Q)]
                for i in (range(x.shape[0]) if kind == "save_mem" else [None]):
                    pick = (lambda z: z) if i is None else (lambda z: z[i:i + 1])
                    sc = (lambda z: float(z)) if i is None else (lambda z: float(z[i]))
                    rows.append([sc(t), sc(F), sc(Q), pick(x), pick(e), pok, pick(x0s)])
            if disp is not None:
                disp += rows
                return v
            for t, F, Q, x, e, pok, x0 in rows:
                ms = []
                if noise and Q > 1e-3:
                    ms = [moments.entry(((x - F * x0) / math.sqrt(Q)).reshape(x.shape[0], -1).ravel())]
                ev.append(dict(e="eval", t=rec.q1(t - float(t0), 16384, 10 ** 8), param=pok, F=obs(F, 18, 20), Q=obs(Q), f=[], m=ms,
                               q=rec.q1(Q, 16384 if not noise else 0, 10 ** 7), S=int((e ** 2).sum()), cells=int(x.size), raw=rows))
            ev.append(dict(e="loss", v=rec.q1(v, 16384, 10 ** 8) if v.shape == () else 10 ** 8))
            return v
        # known errors; the states must follow displaced samples
        start = len(ev)
        run(E, x0s, key)
        far, near = [], []
        run(Z, x0s + DX, key, disp=far)
        run(Z, x0s, key, disp=near)
        for e, a, b in zip(ev[start:-1], far, near):
            r = (a[3] - b[3]) / DX
            B = e["F"][1]
            e["f"] = [[int(np.clip(round(z * 2.0 ** B), -2 ** 29, 2 ** 29)) if np.isfinite(z) else 2 ** 30, B] for z in r.ravel()]
        run(Z, x0s, key)          # the true score
        if kind != "save_mem":    # noise law on many samples
            run([np.zeros((R0 * R0 // m + 1, *shape))], np.ones((R0 * R0 // m + 1, *shape)), key, noise=True)
        for e in ev:
            e.pop("raw", None)
    _, err = rec.observe(go)
    for e in ev:
        e.pop("raw", None)
    if err:
        ev.append(err)
    cc = dict(header(c), kind=kind, t0=rat(t0), T=rat(T), J=J, rand=rand, rational=rational, R0=R0)
    return dict(c=cc, ev=ev, info=dict(loss=kind, random_times=rand, sde={k: str(v) for k, v in c.items()}, t0=str(t0), T=str(T), J=J, shape=list(shape), jit=jit))


def score_trace(rng, linear, j):
    while True:
        c, ts = config(rng)
        ts = [t for t in ts if t == c["start"] or 0 < abs(clock(c, t, c["start"])) <= 5]
        if len(ts) > 1:
            break
    shape = [(), (2,), (2, 2)][j % 3]
    ev = []

    def go():
        sde, _, u = build(c, linear)
        s = ts[0]
        if c["cls"] == "ou":
            g = linear.make_ou_sde(-LN2 * float(c["al"]), math.sqrt(2 * LN2 * float(c["al"] * c["V"])))[1]
            sc = lambda x, t, x0, s: g(x, t - s, x0)
        else:
            sc = linear.make_linear_sde(sde)[1]
        for t in ts[1:]:
            if clock(c, t, s) == 0:
                continue
            x, x0 = rng.integers(-4, 5, shape), rng.integers(-4, 5, shape)
            v = np.asarray(sc(jnp.asarray(x, jnp.float32), float(t), jnp.asarray(x0, jnp.float32), float(s)), np.float64)
            li = lambda z: rats([int(q) for q in np.ravel(z)])
            ev.append(dict(e="score", t=rat(t), s=rat(s), x=li(x), x0=li(x0), v=[obs(q, 19, 20) for q in v.ravel()] if v.shape == shape else []))
    _, err = rec.observe(go)
    if err:
        ev.append(err)
    return dict(c=dict(dict(t0=rat(c["start"]), T=rat(c["start"])), **header(c), kind="score", J=0, rand=False, rational=True, R0=1), ev=ev,
                info=dict(fn="cond_score_t_0", sde={k: str(v) for k, v in c.items()}, shape=list(shape)))


def canaries(ts, tsc):
    out = []

    def add(t, what, pick, change):
        x = tc.corrupt(t, pick, change)
        if x is not None:
            out.append((what, x))
    for t in ts[:8]:
        add(t, "loss", lambda e: e["e"] == "loss", lambda e: e.update(v=e["v"] + 50 + e["v"] // 100))
        add(t, "time", lambda e: e["e"] == "eval", lambda e: e.update(t=-3))
        add(t, "state", lambda e: e["e"] == "eval" and e["f"], lambda e: e["f"].__setitem__(0, [e["f"][0][0] + 500, e["f"][0][1]]))
        add(t, "noise", lambda e: e["e"] == "eval" and e["m"], lambda e: e["m"][0].update(var=obs(1.3)))
    add(tsc[0], "score", lambda e: e["e"] == "score", lambda e: e["v"].__setitem__(0, [e["v"][0][0] + max(300, abs(e["v"][0][0]) // 400), e["v"][0][1]]))
    return out


def body(c):
    r = tlc.check("LinSDEMC", "SPECIFICATION Spec\nCONSTANTS TIMES={0,1,2,3} STEPS=3\nINVARIANTS Composed Stationary Identity Rates\nCHECK_DEADLOCK FALSE\n", workers=8)
    c.tlc(r, "LinSDEMC")
    from fbs.sdes import linear
    rng = np.random.default_rng(c.seed + 19)
    R0, m = (150, 6) if c.thorough else (64, 1)
    ts = [trace(rng, linear, j, R0) for j in range(30 * m)]
    tsc = [score_trace(rng, linear, j) for j in range(20 * m)]
    tc.validate(c, "ScoreLossTrace", ts + tsc, canaries(ts, tsc), timeout=1800)
    c.assume("F and Q at random training times are those of the code's own discretisation, whose law is C15")


report.main("C19", body)
