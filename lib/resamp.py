import numpy as np
import jax
import jax.numpy as jnp


def schemes():
    from fbs.samplers import resampling as a
    from fbs.samplers.csmc import resamplings as b
    return {
        ("filter", "systematic"): lambda w, k: a.systematic(w, k),
        ("filter", "stratified"): lambda w, k: a.stratified(w, k),
        ("filter", "multinomial"): lambda w, k: a.multinomial(w, k),
        ("filter", "killing"): lambda w, k: a.killing(w, k),
        ("csmc", "multinomial"): lambda w, k: b.multinomial(k, w, conditional=False),
        ("csmc", "killing"): lambda w, k: b.killing(k, w, conditional=False),
        ("csmc", "systematic"): lambda w, k: b.systematic(k, w, conditional=False),
    }


def cond(scheme):
    from fbs.samplers.csmc import resamplings as b
    f = getattr(b, scheme)
    return lambda w, k, i, j: f(k, w, i, j, True)
