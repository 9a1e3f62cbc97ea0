import _path  # noqa
from lib import keyspy
keyspy.install()          # before fbs is imported
import types
import numpy as np
import jax
import jax.numpy as jnp
from lib import report, tlc, rec, gibbsrec, tracecheck as tc


def norm(key, shape):
    return jax.random.normal(key, shape)


class Callbacks:
    """A user's side: every function that is given a key uses it."""

    def __init__(self, n, K, d):
        self.n, self.K, self.d = n, K, d
        self.ts = jnp.linspace(0.5, 1.5, K + 1)
        self.vs = jnp.asarray(np.arange((K + 1) * d).reshape(K + 1, d) / 8, jnp.float32)

    def init(self, key, v0, n):
        return norm(key, (n, self.d)) + v0

    def init_c(self, key, n):
        return norm(key, (n, self.d))

    def trans(self, us, v, t, key):
        return us + norm(key, us.shape)

    def lik(self, v, us, vp, t):
        return -0.5 * jnp.sum((us - v) ** 2, axis=-1)

    def lik_pos(self, v, us, vp, t):
        return jnp.exp(self.lik(v, us, vp, t))

    def tlogpdf(self, x, us, v, t):
        return -0.5 * jnp.sum((us - x) ** 2, axis=-1)

    def ilik(self, v0, us, v1):
        return -0.5 * jnp.sum((us - v0) ** 2, axis=-1)

    def fwd_ys(self, key, y0):
        return jnp.cumsum(jnp.concatenate([y0[None], norm(key, (self.K, self.d))]), axis=0)

    def fwd_xy(self, key, x0, y0):
        z = jnp.concatenate([x0, y0])
        return jnp.cumsum(jnp.concatenate([z[None], norm(key, (self.K, 2 * self.d))]), axis=0)

    def unpack(self, xy):
        return xy[..., :self.d], xy[..., self.d:]


def scenarios(rng, thorough):
    import fbs.samplers.smc as smc
    import fbs.samplers.gibbs as gb
    import fbs.samplers.csmc.csmc as cs
    import fbs.samplers.csmc.resamplings as crs
    import fbs.samplers.resampling as rs
    from fbs.sdes import linear, simulators
    from fbs.dsb import base as dsb
    from fbs.data.base import Dataset
    from fbs.data import images
    from fbs.data.bayesian import Crescent
    out = []

    def add(name, f, draws=True):
        out.append((name, f, draws))
    reps = 3 if thorough else 1
    for r in range(reps):
        n, K, d = [(3, 3, 2), (2, 4, 1), (5, 1, 3)][r]
        cb = Callbacks(n, K, d)
        w = jnp.asarray(rng.dirichlet(np.ones(n)), jnp.float32)
        for name in ("systematic", "stratified", "multinomial", "killing"):
            f = getattr(rs, name)
            add("resampling." + name, lambda key, f=f, w=w: f(w, key))
        for name in ("killing", "multinomial"):
            f = getattr(crs, name)
            for cond in (True, False):
                add("csmc.%s conditional=%s" % (name, cond), lambda key, f=f, w=w, cond=cond: f(key, w, jnp.array(1), jnp.array(0), cond))
        if hasattr(crs, "systematic"):
            add("csmc.systematic conditional=False", lambda key, w=w: crs.systematic(key, w, jnp.array(1), jnp.array(0), False))
        for name in ("systematic", "killing") + (("stratified", "multinomial") if thorough else ()):
            f = getattr(rs, name)
            for log in (True, False):
                for last in (True, False):
                    if log != last or thorough:
                        add("bootstrap_filter %s log=%s return_last=%s" % (name, log, last),
                            lambda key, f=f, log=log, last=last, cb=cb: smc.bootstrap_filter(
                                cb.trans, cb.lik if log else cb.lik_pos, cb.vs, cb.ts, cb.init, key, cb.n, f, log=log, return_last=last))
            add("pmcmc_filter_step " + name, lambda key, f=f, cb=cb: smc.pmcmc_filter_step(
                key, cb.vs, jnp.zeros((cb.n, cb.d)), cb.ts, cb.trans, cb.lik, f, cb.n))
        us = jnp.asarray(rng.normal(size=(K + 1, n, d)), jnp.float32)
        add("bootstrap_backward_smoother", lambda key, us=us, cb=cb: smc.bootstrap_backward_smoother(key, us, cb.vs, cb.ts, cb.tlogpdf))
        add("pcn_proposal", lambda key, cb=cb: smc.pcn_proposal(key, 0.5, cb.vs, cb.vs * 0, lambda k: norm(k, cb.vs.shape)))
        sde = linear.StationaryConstLinearSDE(a=-0.5, b=1.)
        fs = types.SimpleNamespace()
        for delta in (None, 0.5):
            for which in (0, 1):
                def pm(key, delta=delta, which=which, cb=cb, sde=sde):
                    return smc.pmcmc_kernel(key, jnp.zeros(cb.d), jnp.array(-1.), cb.vs, cb.vs[0], cb.ts, cb.fwd_ys, sde,
                                            lambda k, v, m: norm(k, (m, cb.d)), cb.trans, cb.lik, rs.systematic, cb.n,
                                            delta=delta, which_u=which)
                add("pmcmc_kernel delta=%s which_u=%d" % (delta, which), pm)
        add("twisted_smc", lambda key, cb=cb: smc.twisted_smc(
            key, cb.vs[0], cb.ts, lambda k, m: norm(k, (m, cb.d)), lambda y, xs, t: -0.5 * jnp.sum((xs - y) ** 2, -1),
            lambda x, xp, t: -0.5 * jnp.sum((x - xp) ** 2, -1), lambda k, xp, t, y: xp + norm(k, xp.shape),
            lambda x, xp, t, y: -0.5 * jnp.sum((x - xp) ** 2, -1), rs.stratified, cb.n))
        bs = jnp.asarray(rng.integers(0, n, K + 1))
        for name in ("killing", "multinomial"):
            for back in (True, False):
                add("csmc_kernel %s backward=%s" % (name, back), lambda key, name=name, back=back, cb=cb, us=us, bs=bs: cs.csmc_kernel(
                    key, us[:, 0], bs, cb.vs, cb.ts, cb.init_c, cb.ilik, cb.trans, cb.tlogpdf, cb.lik, getattr(crs, name), cb.n, back))
        for marg in (False, True):
            for eb in (False, True):
                for ef in (False, True):
                    def gk(key, marg=marg, eb=eb, ef=ef, cb=cb, us=us, bs=bs, sde=gibbsrec.StubSDE()):
                        return gb.gibbs_kernel(key, us[0, 0], cb.vs[0], us[:, 0], bs, cb.ts, cb.fwd_xy, sde, cb.unpack, cb.n,
                                               cb.trans, cb.tlogpdf, cb.lik, marg_y=marg, explicit_backward=eb, explicit_final=ef)
                    add("gibbs_kernel marg_y=%s explicit_backward=%s explicit_final=%s" % (marg, eb, ef), gk)
            for method in ("filter", "smoother", "debug"):
                def gi(key, marg=marg, method=method, cb=cb, sde=gibbsrec.StubSDE()):
                    return gb.gibbs_init(key, cb.vs[0], (cb.d,), cb.ts, cb.fwd_xy, sde, cb.unpack, cb.trans, cb.tlogpdf, cb.lik, cb.n,
                                         method=method, marg_y=marg)
                add("gibbs_init marg_y=%s method=%s" % (marg, method), gi)
        add("force_move", lambda key, w=w: gb.force_move(key, w, jnp.array(1)))
        x0 = jnp.ones((d,))
        ts = jnp.asarray([0., 0.3, 0.4, 1.])
        lin = linear.StationaryLinLinearSDE(beta_min=0.1, beta_max=2., t0=0., T=1.)
        ex = linear.StationaryExpLinearSDE(a=-1., b=1., c=0.5, z=1.)
        for nm, s in (("const", sde), ("lin", lin), ("exp", ex)):
            sim = linear.make_linear_sde(s)[2]
            for keep in (True, False):
                add("simulate_cond_forward %s keep_path=%s" % (nm, keep), lambda key, sim=sim, keep=keep, ts=ts, x0=x0: sim(key, x0, ts, 0. if not keep else None, keep))
        ou = linear.make_ou_sde(-0.5, 1.)[2]
        for keep in (True, False):
            add("make_ou_sde simulate keep_path=%s" % keep, lambda key, keep=keep, ts=ts, x0=x0: ou(key, x0, ts, keep))
        nn = lambda x, t, p: x * p
        x0s = jnp.asarray(rng.normal(size=(4, d)), jnp.float32)
        for rt in (True, False):
            for lt in ("score", "ipf", "ipf-score"):
                L = linear.make_linear_sde_law_loss(sde, nn, nsteps=3, random_times=rt, loss_type=lt)
                add("law loss %s random_times=%s" % (lt, rt), lambda key, L=L, x0s=x0s: L(jnp.array(0.5), key, x0s))
            L2 = linear.make_linear_sde_law_loss(sde, lambda x, t, p: x * p, nsteps=3, random_times=rt, save_mem=True)
            add("law loss save_mem random_times=%s" % rt, lambda key, L2=L2, x0s=x0s: L2(jnp.array(0.5), key, x0s))
            L3 = linear.make_ou_score_matching_loss(-0.5, 1., nn, nsteps=3, random_times=rt)
            add("ou loss random_times=%s" % rt, lambda key, L3=L3, x0s=x0s: L3(jnp.array(0.5), key, x0s))
        dr, di = (lambda x, t: -x * t), (lambda t: 1. + t)
        for ns in (1, 3):
            for path in (True, False):
                add("euler_maruyama nsteps=%d return_path=%s" % (ns, path), lambda key, ns=ns, path=path, ts=ts, x0=x0: simulators.euler_maruyama(
                    key, x0, ts, dr, di, integration_nsteps=ns, return_path=path))
            add("reverse_simulator nsteps=%d" % ns, lambda key, ns=ns, ts=ts, x0=x0: simulators.reverse_simulator(
                key, x0, ts, lambda x, t: -x, dr, di, integration_nsteps=ns))
            for rep in (True, False):
                add("doob_bridge_simulator nsteps=%d replace=%s" % (ns, rep), lambda key, ns=ns, rep=rep, ts=ts, x0=x0: simulators.doob_bridge_simulator(
                    key, sde, x0, 2 * x0, ts, integration_nsteps=ns, replace=rep))
        add("discrete_time_simulator", lambda key, ts=ts, x0=x0: simulators.discrete_time_simulator(key, x0, ts, lambda x, t, s: x * t, lambda t, s: t - s))
        pf = lambda x, t, p: p * x
        add("ipf_loss_disc", lambda key, x0s=x0s, ts=ts: dsb.ipf_loss_disc(jnp.array(1.), jnp.array(2.), x0s, ts, jnp.ones(3), pf, pf, key))
        for nm in ("ipf_loss_cont", "ipf_loss_cont_v"):
            add(nm, lambda key, nm=nm, x0s=x0s, ts=ts: getattr(dsb, nm)(key, jnp.array(1.), jnp.array(2.), x0s, ts, pf, pf, lambda t: 1. + t))

    class Toy(Dataset):
        def __init__(self, n):
            self.n, self.xs = n, jnp.arange(float(n))[:, None]
    ds = Toy(10)
    add("Dataset.draw_subset", lambda key: ds.draw_subset(key, 4))
    add("Dataset.init_enumeration", lambda key: ds.init_enumeration(key, 4))
    xs = jnp.asarray(rng.uniform(size=(6, 16, 16, 1)), jnp.float32)
    for task in ("inpaint-5", "supr-4", "deconv-3"):
        im = object.__new__(images.Image if hasattr(images, "Image") else object)
        im.xs, im.n, im.image_shape, im.task = xs, 6, (16, 16, 1), task
        add("Image.sampler " + task, lambda key, im=im: im.sampler(key))
        add("Image.enumerate_subset " + task, lambda key, im=im: im.enumerate_subset(0, [jnp.array([0, 2, 3])], key))
    for task, rnd in (("inpaint-5", True), ("supr-4", True), ("supr-4", False)):
        ir = images.ImageRestore(task, (16, 16, 1), rnd)
        ir.xs, ir.n = xs, 6
        add("ImageRestore.sampler %s sr_random=%s" % (task, rnd), lambda key, ir=ir: ir.sampler(key))
    add("Crescent.sampler", lambda key: Crescent().sampler(key, 5))
    return out


def record(name, f, draws, seed):
    key = jax.random.PRNGKey(seed)
    res = []
    err = None
    for _ in range(2):
        with keyspy.spy(key) as r, jax.disable_jit():
            val, err = rec.observe(lambda: jax.tree_util.tree_map(np.asarray, jax.tree_util.tree_leaves(f(key))))
        res.append((r, val))
        if err:
            break
    ev = list(res[0][0].ev)
    if err:
        ev.append(err)
    else:
        same = res[0][0].ev == res[1][0].ev and len(res[0][1]) == len(res[1][1]) and all(
            np.array_equal(a, b, equal_nan=True) for a, b in zip(res[0][1], res[1][1]))
        ev.append(dict(e="again", same=bool(same)))
    return dict(c=dict(root=1, draws=draws), ev=ev, info=dict(call=name, seed=seed))


def canaries(traces):
    out = []

    def add(t, what, ev):
        out.append((what, dict(c=t["c"], ev=ev)))
    t = max(traces, key=lambda t: len(t["ev"]))
    d = [i for i, e in enumerate(t["ev"]) if e["e"] == "draw"]
    ev = t["ev"]
    add(t, "a draw repeated", ev[:d[-1] + 1] + [ev[d[-1]]] + ev[d[-1] + 1:])
    add(t, "a foreign key", ev[:d[-1]] + [dict(ev[d[-1]], ks=[99999])] + ev[d[-1] + 1:])
    add(t, "the root drawn", [dict(ev[d[-1]], ks=[1])] + ev)
    add(t, "a split after a draw", ev[:-1] + [dict(e="split", ks=ev[d[0]]["ks"][:1], num=2, out=[[90001, 90002]])] + ev[-1:])
    add(t, "shared", ev[:d[-1]] + [dict(ev[d[-1]], shared=True)] + ev[d[-1] + 1:])
    add(t, "not a function of the key", ev[:-1] + [dict(e="again", same=False)])
    return out


import time
def body(c):
    r = tlc.check("KeysMC", "SPECIFICATION Spec\nCONSTANTS STEPS=%d NUMS={1,2}\nINVARIANTS Antichain Lineage\nCHECK_DEADLOCK FALSE\n"
                  % (6 if c.thorough else 5), workers=8, timeout=3000)
    c.tlc(r, "KeysMC")
    rng = np.random.default_rng(c.seed + 14)
    S = scenarios(rng, c.thorough)
    traces = [record(name, f, draws, int(rng.integers(2 ** 30))) for name, f, draws in S]
    # a random key is a stream: recorded calls that never drew would make the check vacuous
    c.cov["calls_watched"] = len(traces)
    c.cov["key_uses"] = sum(len(t["ev"]) for t in traces)
    tc.validate(c, "KeysTrace", traces, canaries(traces))
    c.assume("keys used through the functions of jax.random are seen; keys are told apart by value")


report.main("C14", body)
