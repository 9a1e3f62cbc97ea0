From 4bd948c0a07bf06b6853aa8f84f1162ebf29b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 01/23] fix: draw the smoother's last state with its own key

The already split key was reused, so the draw of u_K was correlated with the
keys of the backward steps.
---
 fbs/samplers/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index f35464b..168c5d8 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -106,7 +106,7 @@ def bootstrap_backward_smoother(key: JKey,
 
     nsteps = filter_us.shape[0] - 1
     key_last, key_smoother = jax.random.split(key, num=2)
-    uT = jax.random.choice(key, filter_us[-1], axis=0)
+    uT = jax.random.choice(key_last, filter_us[-1], axis=0)
     traj = jax.lax.scan(scan_body, uT, (filter_us[-2::-1], vs[-2::-1], ts[-2::-1],
                                         jax.random.split(key_smoother, num=nsteps)))[1][::-1]
     return jnp.concatenate([traj, jnp.expand_dims(uT, axis=0)], axis=0)
-- 
2.43.0


From d652b2095041f9d575ee087949c1eeb46fab48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 02/23] fix: honour log=False in bootstrap_filter

The documented flag was ignored: densities were treated as log densities.
---
 fbs/samplers/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index 168c5d8..bf7ed03 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -63,6 +63,8 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray, FloatScalar,
         us = transition_sampler(us_prev, v_prev, t_prev, key_proposal, **kwargs)
 
         log_weights = measurement_cond_pdf(v, us_prev, v_prev, t_prev, **kwargs)
+        if not log:
+            log_weights = jnp.log(log_weights)
         _c = jax.scipy.special.logsumexp(log_weights)
         log_nell -= _c - math.log(nparticles)
         log_weights = log_weights - _c
-- 
2.43.0


From 39550a0c1dd613c073c19610503991539859749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 03/23] fix: no spurious likelihood factor at step 0 of
 gibbs_kernel with explicit_final

The initial weights were p(v_0 | u_0, v_1) evaluated with swapped arguments,
a factor the target does not have, so the kernel was not invariant.
---
 fbs/samplers/gibbs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index a8fab78..17c19b7 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -134,7 +134,8 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
             return jax.random.normal(key_, (n_samples, *us.shape[1:]))
 
         def init_likelihood_logpdf(v0, u0s, v1, **kwargs):
-            return likelihood_logpdf(v0, u0s, v1, ts[0], **kwargs)
+            # u0 and v0 are independent at the reference, hence uniform initial weights
+            return -math.log(u0s.shape[0]) * jnp.ones(u0s.shape[0])
 
     else:
         def init_sampler(*_):
-- 
2.43.0


From c9d400b39a1740b8a35cb528da121de1fc909f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 04/23] fix: include the measurement density in the cSMC
 backward weights

p(v_{k+1} | u_k, v_k) depends on the candidate u_k; without it the backward
sampling kernel does not leave the smoothing distribution invariant.
---
 fbs/samplers/csmc/csmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbs/samplers/csmc/csmc.py b/fbs/samplers/csmc/csmc.py
index 9b2bb1f..18f4549 100644
--- a/fbs/samplers/csmc/csmc.py
+++ b/fbs/samplers/csmc/csmc.py
@@ -71,6 +71,10 @@ def csmc_kernel(key: JKey,
                                    transition_sampler, measurement_cond_logpdf, cond_resampling, nsamples,
                                    **kwargs)
     if backward:
+        # p(v_{k+1} | u_k, v_k) depends on u_k, hence it is a part of the backward weights
+        log_liks = jax.vmap(lambda v, us, v_prev, t_prev: measurement_cond_logpdf(v, us, v_prev, t_prev, **kwargs))(
+            vs[1:], xss[:-1], vs[:-1], ts[:-1])
+        log_ws = log_ws.at[:-1].add(log_liks)
         xs_star, bs_star = backward_sampling_pass(key_bwd, transition_logpdf, vs, ts, xss, log_ws, **kwargs)
     else:
         xs_star, bs_star = backward_scanning_pass(key_bwd, As, xss, log_ws[-1])
-- 
2.43.0


From da078a0b7c9bc7e7dff7860dcb4abd815962e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 05/23] fix: report the acceptance probability of force_move
 correctly

The individual ratios were not capped at one.
---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 17c19b7..26ec9ab 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -209,7 +209,7 @@ def force_move(key: JKey, weights: JArray, k: FloatScalar) -> Tuple[JInt, JFloat
     u = jax.random.uniform(key_2, shape=())
     accept = u * (1 - weights[i]) < temp  # u < (1 - w_k) / (1 - w_i)
 
-    alpha = jnp.nansum(temp * rest_weights / (1 - weights))
+    alpha = jnp.nansum(rest_weights * jnp.minimum(1., temp / (1 - weights)))
     i = jax.lax.select(accept, i, k)
 
     return i, jnp.clip(alpha, 0, 1.)
-- 
2.43.0


From 69052fad2c076710beae58fc751eb93f8e8eb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 06/23] fix: substep times of euler_maruyama on decreasing
 grids

With decreasing times the last substep was placed one substep beyond t_next.
---
 fbs/sdes/simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/simulators.py b/fbs/sdes/simulators.py
index 4ebd121..e740e14 100644
--- a/fbs/sdes/simulators.py
+++ b/fbs/sdes/simulators.py
@@ -89,7 +89,8 @@ def euler_maruyama(key: JKey, x0: JArray, ts: JArray,
 
         ddt = jnp.abs(t_next - t) / integration_nsteps
         rnds = jax.random.normal(key_, (integration_nsteps, *x0.shape))
-        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_next - ddt, integration_nsteps)))[0]
+        t_last = t_next - (t_next - t) / integration_nsteps
+        return jax.lax.scan(scan_body_, xt, (rnds, jnp.linspace(t, t_last, integration_nsteps)))[0]
 
     def scan_body(carry, elem):
         x = carry
-- 
2.43.0


From 6635efcc968676661848ecc0d110ac86eb05dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 07/23] fix: marginal mode of simulate_cond_forward for vectors
 of times

t0=None did not default to ts[0], and the coefficients were broadcast against
the state axes instead of the time axis.
---
 fbs/sdes/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 31d579d..021c23d 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -220,8 +220,9 @@ def make_linear_sde(sde: LinearSDE):
             rnds = jax.random.normal(key, (ts.shape[0] - 1, *x0.shape))
             return jnp.concatenate([x0[jnp.newaxis], jax.lax.scan(scan_body, x0, (ts[1:], ts[:-1], rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_linear_sde(ts, t0)
+            Fs, Qs = discretise_linear_sde(ts, ts[0] if t0 is None else t0)
             rnds = jax.random.normal(key, (*ts.shape, *x0.shape))
+            Fs, Qs = [jnp.reshape(z, (*ts.shape, *([1] * x0.ndim))) for z in (Fs, Qs)]
             return Fs * x0 + jnp.sqrt(Qs) * rnds
 
     return discretise_linear_sde, cond_score_t_0, simulate_cond_forward
-- 
2.43.0


From f29a632674ee70809c51b912371eadb0e97227c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 08/23] fix: Crescent prior density uses the standard deviation

The variance was passed as the scale, so the density disagreed with the sampler.
---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index de63431..8aa5b4a 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -36,7 +36,7 @@ class Crescent(Dataset):
 
     def log_prior_pdf(self, phi):
         if self.cov_is_diag:
-            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.diag(self.cov)))
+            return jnp.sum(jax.scipy.stats.norm.logpdf(phi, self.m, jnp.sqrt(jnp.diag(self.cov))))
         else:
             return jax.scipy.stats.multivariate_normal.logpdf(phi, self.m, self.cov)
 
-- 
2.43.0


From a706bcbbb1cfc25b552be1f7928ecca98c47123f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 09/23] fix: missing factor one half in the Gaussian KL
 divergence

---
 fbs/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/utils.py b/fbs/utils.py
index 8a79862..293184f 100644
--- a/fbs/utils.py
+++ b/fbs/utils.py
@@ -48,6 +48,6 @@ def kl(m0, cov0, m1, cov1):
     chol1 = jax.scipy.linalg.cho_factor(cov1)
     log_det0 = _log_det(chol0[0])
     log_det1 = _log_det(chol1[0])
-    return (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
-            - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
-            + log_det1 - log_det0)
+    return 0.5 * (jnp.trace(jax.scipy.linalg.cho_solve(chol1, cov0))
+                  - d + jnp.dot(m1 - m0, jax.scipy.linalg.cho_solve(chol1, m1 - m0))
+                  + log_det1 - log_det0)
-- 
2.43.0


From 11170987dee8a1b3778c3bb5980469da4e194370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 10/23] fix: clip unconditional systematic indices

Rounding in the cumulative weights could yield the out-of-range index N.
---
 fbs/samplers/csmc/resamplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/csmc/resamplings.py b/fbs/samplers/csmc/resamplings.py
index 351b996..34f5c84 100644
--- a/fbs/samplers/csmc/resamplings.py
+++ b/fbs/samplers/csmc/resamplings.py
@@ -122,7 +122,7 @@ def _standard_systematic(key: JKey, weights: JArray) -> JArray:
     u = (jnp.arange(N) + jax.random.uniform(key)) / N
     cum_weights = jnp.cumsum(weights)
     indices = jnp.searchsorted(cum_weights, u)
-    return indices
+    return jnp.clip(indices, 0, N - 1)
 
 
 def _conditional_systematic(key: JKey, weights: JArray, i, j) -> JArray:
-- 
2.43.0


From f90039b6deab8fe2aea5465b04da039b90dae196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 11/23] fix: keep the batch axis of UNet batches of size one

---
 fbs/nn/unet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbs/nn/unet.py b/fbs/nn/unet.py
index ec00c1d..adb7252 100644
--- a/fbs/nn/unet.py
+++ b/fbs/nn/unet.py
@@ -277,7 +277,8 @@ class UNet(nn.Module):
 
     @nn.compact
     def __call__(self, x, time):
-        if x.ndim < 4:
+        unbatched = x.ndim < 4
+        if unbatched:
             x = jnp.expand_dims(x, 0)
         B, H, W, C = x.shape
 
@@ -362,7 +363,7 @@ class UNet(nn.Module):
 
         out = nn.Conv(out_dim, kernel_size=(1, 1), dtype=self.dtype, name='final.conv_0')(out)
 
-        if B == 1:
+        if unbatched:
             return out[0]
         else:
             return out
-- 
2.43.0


From e4689d64d0d32218e39cdbe576db925be886db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 12/23] fix: account for a nonzero start time in the OU
 simulator and loss

---
 fbs/sdes/linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbs/sdes/linear.py b/fbs/sdes/linear.py
index 021c23d..d389eb6 100644
--- a/fbs/sdes/linear.py
+++ b/fbs/sdes/linear.py
@@ -155,7 +155,7 @@ def make_ou_sde(a, b):
             rnds = jax.random.normal(key, (dts.shape[0], x0.shape[0]))
             return jnp.concatenate([x0[None, :], jax.lax.scan(scan_body, x0, (dts, rnds))[1]], axis=0)
         else:
-            Fs, Qs = discretise_ou_sde(ts)
+            Fs, Qs = discretise_ou_sde(ts - ts[0])
             rnds = jax.random.normal(key, (ts.shape[0], x0.shape[0]))
             return Fs[:, None] * x0[None, :] + jnp.sqrt(Qs)[:, None] * rnds
 
@@ -382,14 +382,14 @@ def make_ou_score_matching_loss(a, b, nn_score, t0=0., T=2., nsteps: int = 100,
                              T])
         else:
             ts = jnp.linspace(t0, T, nsteps + 1)
-        scales = score_scale(ts[1:])
+        scales = score_scale(ts[1:] - ts[0])
 
         keys = jax.random.split(key_fwd, num=nsamples)
         fwd_paths = jax.vmap(simulate_cond_forward, in_axes=[0, 0, None])(keys, x0s, ts)
         nn_evals = jax.vmap(nn_score, in_axes=[1, 0, None], out_axes=1)(fwd_paths[:, 1:], ts[1:], param)
         cond_score_evals = jax.vmap(jax.vmap(cond_score_t_0,
                                              in_axes=[0, 0, None]),
-                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:], fwd_paths[:, 0])
+                                    in_axes=[0, None, 0])(fwd_paths[:, 1:], ts[1:] - ts[0], fwd_paths[:, 0])
         return jnp.mean(jnp.mean((nn_evals - cond_score_evals) ** 2, axis=-1) * scales[None, :])
 
     return loss_fn
-- 
2.43.0


From 04edeca9f81af716c9b47a580edbebbcee0e43f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:29 +0000
Subject: [PATCH 13/23] fix: accept keyword arguments in gibbs_kernel without
 explicit_final

---
 fbs/samplers/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 26ec9ab..9bc61cd 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -141,7 +141,7 @@ def gibbs_kernel(key: JKey, x0: JArray, y0: JArray, us_star: JArray, bs_star: JA
         def init_sampler(*_):
             return us[0] * jnp.ones((nparticles, *us.shape[1:]))
 
-        def init_likelihood_logpdf(*_):
+        def init_likelihood_logpdf(*_, **__):
             return -math.log(nparticles) * jnp.ones(nparticles)
 
     if explicit_backward:
-- 
2.43.0


From a470d503a394a5a82c6385fc17d7fa885db63d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 14/23] fix: pmcmc_kernel picks its terminal particle after a
 shuffle, a fixed slot of a sorted resampler is biased

---
 fbs/samplers/smc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbs/samplers/smc.py b/fbs/samplers/smc.py
index bf7ed03..339f38e 100644
--- a/fbs/samplers/smc.py
+++ b/fbs/samplers/smc.py
@@ -219,7 +219,7 @@ def pmcmc_kernel(key: JKey,
     delta : float, default=None
         The PCN parameter.
     which_u : int, default=0
-        Which particle to choose.
+        Which particle to choose, after shuffling.
 
     Returns
     -------
@@ -230,7 +230,7 @@ def pmcmc_kernel(key: JKey,
     -----
     It is possible to not store the whole trajectory Y by means of Doob's transform.
     """
-    key_prop, key_u0, key_filter, key_mh = jax.random.split(key, num=4)
+    key_prop, key_u0, key_filter, key_mh, key_pick = jax.random.split(key, num=5)
 
     if delta is None:
         prop_ys = fwd_ys_sampler(key_prop, y0)
@@ -243,7 +243,8 @@ def pmcmc_kernel(key: JKey,
     u0s = ref_sampler(key_u0, vs[0], nparticles)  # p(u0 | y0)
     prop_uTs, prop_log_ell = pmcmc_filter_step(key_filter, vs, u0s, ts, transition_sampler, likelihood_logpdf,
                                                resampling, nparticles, **kwargs)
-    prop_uT = prop_uTs[which_u]
+    # Sorted resamplers do not leave the particles exchangeable, hence a fixed particle would be a biased draw
+    prop_uT = jax.random.permutation(key_pick, prop_uTs)[which_u]
 
     log_acc_prob = jnp.minimum(0., prop_log_ell - log_ell)
 
-- 
2.43.0


From 48826d09c2b1faaad92958f8fe14fcec3a711848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 15/23] fix: Crescent posterior integrates each axis over its
 own grid

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index 8aa5b4a..dcc6fc9 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -52,7 +52,7 @@ class Crescent(Dataset):
         def energy(phi): return jnp.exp(self.log_prior_pdf(phi) + self.log_cond_pdf_likelihood(y, phi))
 
         evals = jax.vmap(jax.vmap(energy, in_axes=[0]), in_axes=[0])(phi_mesh)
-        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=0),
+        z = jax.scipy.integrate.trapezoid(jax.scipy.integrate.trapezoid(evals, phi_mesh[0, :, 0], axis=1),
                                           phi_mesh[:, 0, 1])
         return evals / z
 
-- 
2.43.0


From 5c5659af79048001a0f0e55608cdb05b72252a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 16/23] fix: Crescent sampler for full prior covariances

---
 fbs/data/bayesian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbs/data/bayesian.py b/fbs/data/bayesian.py
index dcc6fc9..733e9a5 100644
--- a/fbs/data/bayesian.py
+++ b/fbs/data/bayesian.py
@@ -23,7 +23,7 @@ class Crescent(Dataset):
 
     def sampler(self, key: JKey, batch_size: int) -> Tuple[JArray, JArray]:
         key, subkey = jax.random.split(key)
-        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov)
+        xs = self.m + jax.random.normal(subkey, (batch_size, 2)) @ jnp.linalg.cholesky(self.cov).T
 
         key, subkey = jax.random.split(key)
         ys = (jax.vmap(self.emission, in_axes=[0, None])(xs, self.psi)
-- 
2.43.0


From 33e00b5d7605aaa2251cf7895f0f70ac0d6c5934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 17/23] fix: MNISTResConv with the resize decoder referred to
 an attribute that does not exist

---
 fbs/nn/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbs/nn/models.py b/fbs/nn/models.py
index c246bb0..ad38ba0 100644
--- a/fbs/nn/models.py
+++ b/fbs/nn/models.py
@@ -198,12 +198,12 @@ class MNISTResConv(nn.Module):
             x = x + x1
             x = nn.Conv(features=1, kernel_size=(3, 3))(x)  # (n, 28, 28, 1)
         else:
-            x = jax.image.resize(x, (self.batch_spatial, 14, 14, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 14, 14, 64), 'nearest')
             x = nn.Conv(features=64, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
             x = x + x2
-            x = jax.image.resize(x, (self.batch_spatial, 28, 28, 64), 'nearest')
+            x = jax.image.resize(x, (batch_size, 28, 28, 64), 'nearest')
             x = nn.Conv(features=32, kernel_size=(3, 3))(x)
             x = nn.GroupNorm(num_groups=8)(x)
             x = nn.silu(x)
-- 
2.43.0


From 79b53d949392ba5d2e6e8b5eef4092b8f83969b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 18/23] fix: gp_csgm draws from the terminal law with the
 Cholesky factor of its covariance

---
 experiments/toy/gp_csgm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/toy/gp_csgm.py b/experiments/toy/gp_csgm.py
index b614822..b0253bd 100644
--- a/experiments/toy/gp_csgm.py
+++ b/experiments/toy/gp_csgm.py
@@ -73,7 +73,7 @@ cond_cov_ref = F_ref ** 2 * cov_mat + Q_ref * jnp.eye(d) - F_ref * cov_mat @ jax
 
 
 def cond_ref_sampler(key_):
-    return cond_m_ref + cond_cov_ref @ jax.random.normal(key_, (d,))
+    return cond_m_ref + jnp.linalg.cholesky(cond_cov_ref) @ jax.random.normal(key_, (d,))
 
 
 # The reverse process
-- 
2.43.0


From ab7eba4793ca1505cfc452db57198de4aa345786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 19/23] fix: reference samplers of the toy and bridge
 experiments used a transposed Cholesky factor

---
 experiments/sb/filter.py     | 2 +-
 experiments/sb/gibbs.py      | 2 +-
 experiments/toy/gp_filter.py | 2 +-
 experiments/toy/gp_gibbs.py  | 2 +-
 experiments/toy/gp_pmcmc.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 5e7800b..cd08e2f 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -128,7 +128,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_ys_sampler_proper(key_):
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index 03426be..c7ac046 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -135,7 +135,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     posterior_ref_m = ref_m[:d] + ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, yT - ref_m[d:])
     posterior_ref_cov = ref_cov[:d, :d] - ref_cov[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref_y, ref_cov[d:, :d])
-    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov)
+    return posterior_ref_m + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(posterior_ref_cov).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 889e520..5150f07 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -124,7 +124,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_ys_sampler(key_, y0_):
diff --git a/experiments/toy/gp_gibbs.py b/experiments/toy/gp_gibbs.py
index 7d344c4..6cc194f 100644
--- a/experiments/toy/gp_gibbs.py
+++ b/experiments/toy/gp_gibbs.py
@@ -138,7 +138,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index 0ede830..bc69582 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -130,7 +130,7 @@ def likelihood_logpdf(v, u_prev, v_prev, t_prev):
 def ref_sampler(key_, yT, nsamples_):
     m_ = m_ref[:d] + cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, yT - m_ref[d:])
     cov_ = cov_ref[:d, :d] - cov_ref[:d, d:] @ jax.scipy.linalg.cho_solve(chol_ref, cov_ref[d:, :d])
-    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_)
+    return m_ + jax.random.normal(key_, (nsamples_, d)) @ jnp.linalg.cholesky(cov_).T
 
 
 def fwd_sampler(key_, x0_, y0_):
-- 
2.43.0


From 27965f694f6889d109b4168d76f300b036777926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 20/23] fix: posterior samplers of the bridge experiments used
 a transposed Cholesky factor

---
 experiments/sb/filter.py | 2 +-
 experiments/sb/gibbs.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index cd08e2f..7ef121e 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -49,7 +49,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol.T
 
 
 joint_mean = jnp.zeros((2 * d,))
diff --git a/experiments/sb/gibbs.py b/experiments/sb/gibbs.py
index c7ac046..d434b48 100644
--- a/experiments/sb/gibbs.py
+++ b/experiments/sb/gibbs.py
@@ -51,7 +51,7 @@ gp_posterior_chol = jnp.linalg.cholesky(gp_posterior_cov)
 
 
 def gp_posterior_sampler(key_):
-    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol
+    return gp_posterior_mean + jax.random.normal(key_, (d,)) @ gp_posterior_chol.T
 
 
 joint_mean = jnp.zeros((2 * d,))
-- 
2.43.0


From 24672e896e5bd3e8f9487038ff049ca713815011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 21/23] fix: the filters of the experiments took a fixed slot
 of the sorted resampler's particles, which is biased

---
 experiments/sb/filter.py     | 6 +++---
 experiments/toy/gp_filter.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/experiments/sb/filter.py b/experiments/sb/filter.py
index 7ef121e..e6a316d 100644
--- a/experiments/sb/filter.py
+++ b/experiments/sb/filter.py
@@ -156,9 +156,9 @@ def conditional_sampler(key_):
     else:
         raise ValueError(f'Invalid "{args.x0}" method')
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                  stratified, log=True, return_last=True)[0]
+    return jax.random.choice(key_bwd, approx_x0s, axis=0)
 
 
 approx_cond_samples = np.zeros((nsamples, d))
diff --git a/experiments/toy/gp_filter.py b/experiments/toy/gp_filter.py
index 5150f07..3bb4a3b 100644
--- a/experiments/toy/gp_filter.py
+++ b/experiments/toy/gp_filter.py
@@ -137,9 +137,9 @@ def conditional_sampler(key_):
     key_fwd, key_bwd, key_bf = jax.random.split(key_, num=3)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
-    approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
-                                 stratified, log=True, return_last=True)[0][0]
-    return approx_x0
+    approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
+                                  stratified, log=True, return_last=True)[0]
+    return jax.random.choice(key_bwd, approx_x0s, axis=0)
 
 
 approx_cond_samples = np.zeros((nsamples, d))
-- 
2.43.0


From ae946787b1c3f7a1428741d7e318b93419cfeb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 22/23] fix: gp_pmcmc started its chains with a path that is
 not the one of the evidence estimate

---
 experiments/toy/gp_pmcmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experiments/toy/gp_pmcmc.py b/experiments/toy/gp_pmcmc.py
index bc69582..c7a39ea 100644
--- a/experiments/toy/gp_pmcmc.py
+++ b/experiments/toy/gp_pmcmc.py
@@ -143,12 +143,12 @@ def fwd_ys_sampler(key_, y0_):
 
 # pMCMC initial
 def pmcmc_init(key_):
-    key_fwd, key_bwd, key_bf, key_ys = jax.random.split(key_, num=4)
+    key_fwd, key_bwd, key_bf = jax.random.split(key_, num=3)
     path_y = fwd_ys_sampler(key_fwd, y0)
     vs = path_y[::-1]
     x0s, log_ell = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, ref_sampler, key_bf, nparticles,
                                     stratified, log=True, return_last=True)
-    return x0s[0], log_ell, fwd_ys_sampler(key_ys, y0)
+    return x0s[0], log_ell, path_y
 
 
 # pMCMC kernel
-- 
2.43.0


From 7681bf2f13810f7b51e0c6cb891fff212c4fb82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 23/23] fix: gibbs_init with method='filter' took a fixed slot
 of the sorted resampler's particles, which is biased

---
 fbs/samplers/gibbs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbs/samplers/gibbs.py b/fbs/samplers/gibbs.py
index 9bc61cd..41de055 100644
--- a/fbs/samplers/gibbs.py
+++ b/fbs/samplers/gibbs.py
@@ -48,8 +48,9 @@ def gibbs_init(key, y0, x0_shape, ts,
         return jax.random.normal(key_u0, (nparticles, *x0_shape))
 
     if method == 'filter':
-        approx_x0 = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
-                                     stratified, log=True, return_last=True, **kwargs)[0][0]
+        approx_x0s = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
+                                      stratified, log=True, return_last=True, **kwargs)[0]
+        approx_x0 = jax.random.choice(key_bwd, approx_x0s, axis=0)
         approx_us_star = unpack(fwd_sampler(key_fwd2, approx_x0, y0, **kwargs), **kwargs)[0][::-1]
     elif method == 'smoother':
         uss = bootstrap_filter(transition_sampler, likelihood_logpdf, vs, ts, init_sampler, key_bf, nparticles,
-- 
2.43.0

