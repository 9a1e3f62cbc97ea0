"""Runs the toy and Schroedinger bridge experiment scripts in a scratch directory with the samplers of fbs replaced by
recorders, and keeps what the scripts handed to them."""
import contextlib
import inspect
import io
import os
import runpy
import shutil
import sys
import tempfile
import warnings
import numpy as np
import jax
import jax.numpy as jnp

EXP = "/repo/experiments"
BOX = ["toy/results", "sb/results", "imgs/results_inpainting/imgs", "imgs/results_inpainting/arrs", "imgs/results_supr/imgs",
       "imgs/results_supr/arrs", "sb_imgs/results", "checkpoints", "datasets"]


def bound(fn, a, kw):
    b = inspect.signature(fn).bind(*a, **kw)
    b.apply_defaults()
    d = dict(b.arguments)
    d["_kw"] = dict(d.pop("kwargs", {}))      # what the sampler would pass on to the callbacks
    d.update(d["_kw"])
    return d


class Run:
    """calls: name -> list of the arguments of every call; saved: file name -> arrays."""

    def __init__(self, script, argv, real=(), prepare=None, patches=(), fakes={}):
        self.fakes = fakes
        import fbs.samplers
        import fbs.samplers.smc
        import fbs.samplers.gibbs
        import fbs.sdes
        import fbs.sdes.linear
        import fbs.sdes.simulators
        self.calls, self.saved, self.ns = {}, {}, {}
        homes = {"bootstrap_filter": [fbs.samplers, fbs.samplers.smc], "bootstrap_backward_smoother": [fbs.samplers.smc],
                 "pmcmc_kernel": [fbs.samplers, fbs.samplers.smc], "twisted_smc": [fbs.samplers, fbs.samplers.smc],
                 "gibbs_kernel": [fbs.samplers, fbs.samplers.gibbs], "gibbs_init": [fbs.samplers, fbs.samplers.gibbs],
                 "euler_maruyama": [fbs.sdes, fbs.sdes.simulators],
                 "make_gaussian_bw_sb": [fbs.sdes, fbs.sdes.linear]}
        undo = []

        def put(mod, name, value):
            if hasattr(mod, name):
                undo.append((mod, name, getattr(mod, name)))
                setattr(mod, name, value)
        for name, mods in homes.items():
            f = getattr(mods[-1], name)
            rec = self.recorder(name, f, name in real or name == "make_gaussian_bw_sb")
            for m in mods:
                put(m, name, rec)
        for m, name, v in patches:
            put(m, name, v)
        box = tempfile.mkdtemp(prefix="exp-")
        old, argv0, x64 = os.getcwd(), sys.argv, jax.config.jax_enable_x64
        try:
            for d in BOX:
                os.makedirs(os.path.join(box, "run", d))
            os.makedirs(os.path.join(box, "datasets"))
            os.chdir(os.path.join(box, "run"))
            if prepare:
                prepare(os.path.join(box, "run"))
            sys.argv = [script] + [str(a) for a in argv]
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    self.ns = runpy.run_path(os.path.join(EXP, script), run_name="__main__")
                except SystemExit as x:      # an option the script no longer knows
                    raise RuntimeError("%s ends with exit code %s for %s" % (script, x.code, argv))
            for dp, _, fs in os.walk(os.path.join(box, "run")):
                for f in fs:
                    if f.endswith((".npz", ".npy")) and "results" in dp:
                        z = np.load(os.path.join(dp, f))
                        self.saved[f] = {k: z[k] for k in z.files} if f.endswith(".npz") else z
        finally:
            os.chdir(old)
            sys.argv = argv0
            jax.config.update("jax_enable_x64", x64)
            for m, name, v in reversed(undo):
                setattr(m, name, v)
            shutil.rmtree(box, ignore_errors=True)

    def recorder(self, name, f, real):
        def g(*a, **kw):
            d = bound(f, a, kw)
            self.calls.setdefault(name, []).append(d)
            if real:
                r = f(*a, **kw)
                d["returned"] = r
                return r
            return self.fakes[name](d) if name in self.fakes else getattr(self, "fake_" + name)(d)
        g.__name__ = name
        g.__signature__ = inspect.signature(f)
        return g

    # stand-ins: right shapes, no computation
    def fake_bootstrap_filter(self, d):
        u = d["init_sampler"](d["key"], d["vs"][0], d["nparticles"])
        return (u if d["return_last"] else jnp.zeros((d["ts"].shape[0], *u.shape)) + u), jnp.zeros(())

    def fake_bootstrap_backward_smoother(self, d):
        return d["filter_us"][:, 0]

    def fake_gibbs_kernel(self, d):
        b = d["bs_star"]
        return d["x0"], jnp.zeros((d["ts"].shape[0], *d["x0"].shape)), b, b == b

    def fake_gibbs_init(self, d):
        x = jnp.zeros(d["x0_shape"])
        return x, jnp.zeros((d["ts"].shape[0], *x.shape))

    def fake_pmcmc_kernel(self, d):
        from fbs.samplers.common import MCMCState
        z = jnp.zeros(())
        try:
            s = MCMCState(*[z for _ in MCMCState._fields])
        except TypeError:
            s = None
        return d["uT"], d["log_ell"], d["ys"], s

    def fake_twisted_smc(self, d):
        u = d["init_sampler"](d["key"], d["nparticles"])
        return u, jnp.full((d["nparticles"],), -np.log(d["nparticles"]))

    def fake_euler_maruyama(self, d):
        x = d["x0"]
        return jnp.zeros((d["ts"].shape[0], *x.shape)) + x if d["return_path"] else x

    def last(self, name):
        return self.calls[name][-1]
