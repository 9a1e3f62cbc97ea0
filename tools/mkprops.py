#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Bootstrap filter follows its propagate/weight/select recursion exactly",
  "At every step k the bootstrap filter propagates the current particles with the user's transition given (v_{k-1}, t_{k-1}), weighs them by the user's measurement density of v_k given (previous particle, v_{k-1}, t_{k-1}), and keeps exactly the particles the resampler chose from the normalised weights. The returned value is the negative log of the product over steps of the average unnormalised weight, whether the density is supplied in the log domain or not and whatever common factor it carries. With return_last off it returns the initial particles followed by the particles kept at every step; with it on, the last of these.",
  ["inputs", "histories"], "All particle counts, numbers of steps, state shapes, weight patterns (zeros included), resampling outcomes and extra keyword arguments.",
  "The tests compare one linear-Gaussian filter run with a Kalman filter at a loose statistical tolerance; an off-by-one in v or t, a mispaired weight or a dropped constant stays within the noise.",
  ["fbs/samplers/smc.py"], [("bootstrap_filter scan body", "fbs/samplers/smc.py:bootstrap_filter")],
  ["user callbacks of bootstrap_filter", "its return value"],
  [("particles", "the n current particles and their ancestry", "scan carry"), ("log evidence", "running log product of mean weights", "scan carry")])

p("C02", "Unconditional resampling: valid indices, unbiased offspring, scheme laws",
  "For every normalised weight vector each resampler (systematic, stratified, multinomial, killing, in the filter and in the csmc package) returns as many in-range indices as particles and gives particle a an expected n*w_a copies, never selecting a zero-weight particle. Each scheme also obeys its own joint law: systematic copies are floor or ceil of n*w_a, stratified slot i draws from the i-th stratum of the cumulative weights, multinomial draws are i.i.d. up to order, killing keeps slot i with probability w_i/max(w) and otherwise redraws it from w. Uniform weights leave systematic and killing as the identity.",
  ["inputs", "configurations"], "All weight vectors (zeros, ties, one-hot, uniform, large and small n) of all lengths and all random keys.",
  "The tests check the empirical mean of two schemes at one weight vector; they never see zero weights, joint laws, boundary draws or most of the schemes.",
  ["fbs/samplers/resampling.py", "fbs/samplers/csmc/resamplings.py"],
  [("systematic, stratified, multinomial, killing", "fbs/samplers/resampling.py"), ("conditional=False paths", "fbs/samplers/csmc/resamplings.py")],
  ["returned ancestor indices"])

p("C03", "Conditional resampling pins the reference ancestor and keeps the others' law",
  "Conditional multinomial and killing resampling always return i at slot j, and all other indices are in range. The joint law of the remaining indices is the conditional law, given that slot j has ancestor i, of the corresponding unconditional scheme (for killing: of that scheme composed with a uniformly random cyclic shift of the slots), so that drawing i from the weights and j uniformly gives back the unconditional scheme.",
  ["inputs", "configurations"], "All weight vectors, all (i, j) pairs with positive weight at i, all keys.",
  "The tests compare marginals statistically on random weights with one i = j regime; a wrong roll, a mispinned slot at i != j or a wrong conditional joint law escapes.",
  ["fbs/samplers/csmc/resamplings.py"], [("multinomial / killing with conditional=True", "fbs/samplers/csmc/resamplings.py")],
  ["returned ancestor indices"])

p("C04", "cSMC forward pass keeps the reference trajectory and a consistent genealogy",
  "After a conditional forward pass the particle at slot b*_k equals the reference u*_k for every k and its recorded ancestor is b*_{k-1}. Every other particle at step k is the transition (given v_{k-1}, t_{k-1}) of the particle its recorded ancestor index names, initial particles come from the initial sampler, and the log weights returned for step k are the normalised likelihood of v_k at those ancestors (the initial likelihood of (v_0, particles, v_1) for step 0), each step's conditional resampling having been given the previous step's normalised weights.",
  ["inputs", "histories"], "All reference trajectories, reference index vectors, particle counts, state shapes and resampling outcomes.",
  "No test inspects the genealogy; the only cSMC test compares moments of a long chain to a Gaussian posterior with a loose tolerance.",
  ["fbs/samplers/csmc/csmc.py"], [("forward_pass", "fbs/samplers/csmc/csmc.py:forward_pass"), ("normalise", "fbs/samplers/csmc/csmc.py:normalise")],
  ["user callbacks", "returned ancestors, log weights and particles"])

p("C05", "cSMC trajectory selection: a genuine weighted lineage, target left invariant",
  "The cSMC kernel returns a trajectory and indices with u_k the particle at slot b_k for every k; with ancestor tracing b_{k-1} is the recorded ancestor of b_k and b_K is drawn from the final weights, while with backward sampling b_{k-1} is drawn with probability proportional to its filter weight times the transition density to the selected u_k times the measurement density of v_k. In both modes one kernel step leaves the smoothing distribution of u_{0:K} given v_{0:K} exactly invariant for any finite number of particles.",
  ["inputs", "histories"], "All models, particle counts (including two), trajectories and reference indices, both modes.",
  "The tests run one linear-Gaussian chain and compare two moments loosely; a small bias (a missing density factor, a shifted index) passes.",
  ["fbs/samplers/csmc/csmc.py"], [("csmc_kernel", "fbs/samplers/csmc/csmc.py:csmc_kernel"), ("backward_scanning_pass / backward_sampling_pass", "fbs/samplers/csmc/csmc.py")],
  ["returned trajectory and indices"])

p("C06", "A Gibbs sweep conditions on the fresh forward path of (x0, y0), in reversed time",
  "Each sweep simulates a forward path from the current x0 and the fixed observation y0, reverses it in time, and uses its x part as the reference trajectory and its y part (or a bridge between the two ends of that y part when y is marginalised) as the measurements, with the given reference indices; the supplied u trajectory is never used. The new x0 is a particle of the last step (the end of the returned trajectory), the returned trajectory in explicit-backward mode is the x part of a fresh forward path from the new x0 and y0, returned indices lie in the particle range, keyword arguments reach every user callback, explicit-reference initial particles are independent standard normals, and the returned flags are exactly the elementwise changes of the indices.",
  ["inputs", "histories", "configurations"], "All chains of sweeps, all combinations of marg_y, explicit_backward and explicit_final, all shapes and particle counts.",
  "The test runs one configuration and looks at moments of a chain; which path, which end and which options were used is not observed.",
  ["fbs/samplers/gibbs.py"], [("gibbs_kernel", "fbs/samplers/gibbs.py:gibbs_kernel"), ("bridge_sampler", "fbs/samplers/gibbs.py:bridge_sampler")],
  ["user callbacks", "returned x0, trajectory, indices and flags over a chain"])

p("C07", "The Gibbs kernel leaves the conditional distribution of x0 given y0 invariant",
  "When the backward model is the exact time reversal of the forward noising, one Gibbs sweep started from x0 distributed as p(x0 | y0) returns x0 with exactly that distribution, for any number of particles and steps. This holds in the explicit-backward mode, the ancestor-tracing mode and with the explicit reference distribution. The reference indices returned by the explicit-backward mode are fresh: uniform on range(nparticles) at every time and independent of each other and of x0.",
  ["inputs", "configurations"], "All exactly reversible models, particle counts, step counts and option combinations.",
  "Statistical tests on one Gaussian configuration cannot resolve the bias of a wrong weight at step 0 or a wrong final move.",
  ["fbs/samplers/gibbs.py", "fbs/samplers/csmc/csmc.py"], [("gibbs_kernel", "fbs/samplers/gibbs.py:gibbs_kernel")],
  ["distribution of the returned x0 for each starting x0"])

p("C08", "Forced move: exact transition law, invariance and reported probability",
  "From reference index k the forced move proposes another index i with probability w_i/(1-w_k) and accepts it with probability min(1, (1-w_k)/(1-w_i)), otherwise it stays at k; hence the weights are an invariant law of the move. The probability it reports is the exact probability of leaving k, and degenerate weights (all mass on one index) give a valid index.",
  ["inputs"], "All normalised weight vectors (ties, zeros, one-hot) and all reference indices.",
  "No test calls the forced move directly.",
  ["fbs/samplers/gibbs.py"], [("force_move", "fbs/samplers/gibbs.py:force_move")], ["returned index and probability"])

p("C09", "Particle MCMC: correct accept probability and all-or-nothing state updates",
  "A particle MCMC step either replaces all of (terminal particle, log likelihood, y path) by the proposal or leaves all three unchanged, and the log likelihood carried by the chain is always the estimate computed for the carried path. The proposal is accepted exactly when a uniform draw is below min(1, exp(new - old log likelihood)), which the returned diagnostics report together with the decision, the proposed and the previous log likelihood. The proposal uses a forward path from y0 (fresh, or a pCN move of the current path around the conditional mean), reversed in time, initial particles from the reference sampler at its final value, and one of the filter's last particles.",
  ["inputs", "histories"], "All chains of accepted and rejected steps, including infinite and equal log likelihoods.",
  "The test looks at moments of a chain; a rejected step that leaks part of the proposal is hidden in the noise.",
  ["fbs/samplers/smc.py", "fbs/samplers/common.py"], [("pmcmc_kernel", "fbs/samplers/smc.py:pmcmc_kernel")],
  ["returned tuples along a chain", "user callbacks"],
  [("chain state", "(uT, log_ell, ys)", "pmcmc_kernel arguments and results")])

p("C10", "Particle likelihood estimates are unbiased, step by step",
  "The filter inside the particle MCMC kernel weighs the current particles by the density of v_k given (particle, v_{k-1}, t_{k-1}), selects ancestors by those normalised weights, propagates the selected ancestors with (v_{k-1}, t_{k-1}), and returns the sum over steps of the log mean weight. The exponential of that value, and of minus the bootstrap filter's value, has expectation exactly the model's likelihood for any number of particles and any of the unconditional resamplers.",
  ["inputs", "histories"], "All models, particle counts, step counts and resamplers.",
  "Unbiasedness for finite particle numbers is never tested; the comparison with a Kalman filter uses many particles and a loose tolerance.",
  ["fbs/samplers/smc.py"], [("pmcmc_filter_step", "fbs/samplers/smc.py:pmcmc_filter_step"), ("bootstrap_filter", "fbs/samplers/smc.py:bootstrap_filter")],
  ["returned log likelihood", "user callbacks"])

p("C11", "The pCN proposal is exact for Gaussian path laws",
  "For a Gaussian sampler with mean m and covariance C the pCN proposal from x has conditional mean m + rho (x - m) and conditional covariance (1 - rho^2) C with rho = 2/(2 + delta), so it leaves N(m, C) invariant and is reversible for every delta > 0. The draws it uses are independent draws of the supplied sampler, and the mean it is centred at is the sampler's own mean.",
  ["inputs"], "All delta > 0, states, means, path shapes and samplers.",
  "No test checks the proposal's coefficients; the PMCMC test never uses delta.",
  ["fbs/samplers/smc.py"], [("pcn_proposal", "fbs/samplers/smc.py:pcn_proposal")], ["proposal value for given sampler outputs"])

p("C12", "Twisted SMC: resample, propose, and reweigh with the twisted ratio",
  "Twisted SMC starts from the initial sampler with weights proportional to the twisting density at the first time; at every later time it selects ancestors by the current normalised weights, proposes from the selected ancestors, and sets each new weight proportional to transition density times new twisting value over proposal density times the ancestor's own twisting value. It returns the last proposals with their normalised log weights, consuming the times in order, each exactly once.",
  ["inputs", "histories"], "All particle counts, step counts, weight patterns and resampling outcomes.",
  "The test is one statistical comparison on a Gaussian model; ancestors paired with the wrong twisting value or a skipped time stays within tolerance.",
  ["fbs/samplers/smc.py"], [("twisted_smc", "fbs/samplers/smc.py:twisted_smc")], ["user callbacks", "returned samples and log weights"])

p("C13", "Backward smoother and Gibbs initialisation pick correctly paired states",
  "The backward smoother draws the last state uniformly from the last filter particles and then, for k = K-1 down to 0, draws u_k among the filter particles of time k with probability proportional to the supplied density of the selected u_{k+1} given each candidate and (v_k, t_k); it returns the path in forward order. Gibbs initialisation runs the filter on the reversed y path of a forward simulation from (x0 or zeros, y0) with independent standard normal initial particles, and returns a state among the last filter particles with, according to the method, a smoothed path, the reversed x part of a fresh forward path from it (this state, which is the filter's restoration, is a fair draw from the last particles), or the filter output alone.",
  ["inputs", "histories", "configurations"], "All filter outputs, densities (including zero ones), methods, shapes and step counts.",
  "The tests compare smoother moments with a Rauch-Tung-Striebel smoother at a loose tolerance and call the initialisation only for its shape.",
  ["fbs/samplers/smc.py", "fbs/samplers/gibbs.py"], [("bootstrap_backward_smoother", "fbs/samplers/smc.py"), ("gibbs_init", "fbs/samplers/gibbs.py:gibbs_init")], ["user callbacks", "returned path and state"])

p("C14", "No random key is ever used twice",
  "In every sampler, simulator and loss, every draw has a random key of its own: no two draws of one call share a key, no key used for a draw is also split or folded into keys of other draws, and all keys descend from the one the caller gave. Consequently calls are deterministic functions of their key, and every user callback (proposal, initial sampler, resampler, forward sampler) invoked during one call receives a key distinct from all others.",
  ["inputs", "histories", "configurations"], "All options and step counts of the bootstrap filter, smoother, PMCMC, twisted SMC, cSMC, Gibbs, simulators, losses and dataset routines.",
  "Key reuse correlates draws without changing any shape and barely any moment, so statistical tests do not see it.",
  ["fbs/samplers/smc.py", "fbs/samplers/gibbs.py", "fbs/samplers/csmc/csmc.py", "fbs/sdes/simulators.py", "fbs/sdes/linear.py", "fbs/dsb/base.py", "fbs/data/base.py"],
  [("key splitting in each function", "fbs/samplers, fbs/sdes, fbs/dsb")], ["calls of jax.random inside one public call"])

p("C15", "Linear SDE transitions form a consistent semigroup",
  "For every supported linear SDE the discretisation over [s, t] gives F = 1, Q = 0 when t = s and composes: F(t, r) = F(t, s) F(s, r) and Q(t, r) = F(t, s)^2 Q(s, r) + Q(t, s); where the class also offers mean and variance they agree with F and Q, and its drift and dispersion are the local rates of F and Q at every time. The same composition law holds for the matrix discretisation of linear time-invariant SDEs, and the stationary variance of a stable SDE is a fixed point.",
  ["inputs"], "All coefficient values, all time triples r <= s <= t (not starting at zero), all SDE classes.",
  "The tests compare with closed forms starting at t0 = 0 only; shifted starts, composition and the exponential class are untested.",
  ["fbs/sdes/linear.py", "fbs/utils.py"], [("mean, variance, beta_integral, drift, dispersion", "fbs/sdes/linear.py"), ("discretise_linear_sde, discretise_ou_sde", "fbs/sdes/linear.py"), ("discretise_lti_sde", "fbs/utils.py")], ["returned F, Q, mean, variance, drift, dispersion"])

p("C16", "Forward simulation returns paths from x0 with the exact transition at each step",
  "A kept path starts at x0 and each following point is F x_prev + sqrt(Q) times fresh standard normal noise with F, Q the discretisation between exactly those two consecutive times, for any time grid and state shape. Without the path, each returned point is an independent draw of the marginal at its time given x0 at the initial time, which defaults to the first time. The generic discrete-time simulator applies the supplied mean and scale functions with (t_next, t) of each step in order.",
  ["inputs"], "All nonuniform time grids, start times, state shapes and SDE classes.",
  "The tests compare moments on a uniform grid starting at zero; swapped or shifted times on nonuniform grids and the marginal mode on vectors of times are untested.",
  ["fbs/sdes/linear.py", "fbs/sdes/simulators.py"], [("simulate_cond_forward", "fbs/sdes/linear.py"), ("discrete_time_simulator", "fbs/sdes/simulators.py")], ["returned paths"])

p("C17", "Euler-Maruyama visits each substep once, at its own time, in either direction",
  "Between consecutive grid times the integrator makes exactly the requested number of equal substeps, each adding drift times step plus dispersion times sqrt(step) times fresh standard normal noise, both evaluated at the current state and the substep's own start time, whether the grid is increasing or decreasing. The returned path holds x0 and the state at each grid time; without the path its last element is returned. The reverse simulator uses drift -f(x, T-t) + g(T-t)^2 score(x, T-t) and dispersion g(T-t) with T the last grid time.",
  ["inputs"], "All time grids (nonuniform, decreasing), substep counts, shapes and coefficient functions.",
  "The tests use one increasing grid and look at terminal moments; the evaluation times of substeps cannot be seen there.",
  ["fbs/sdes/simulators.py"], [("euler_maruyama", "fbs/sdes/simulators.py:euler_maruyama"), ("reverse_simulator", "fbs/sdes/simulators.py:reverse_simulator")], ["drift and dispersion callbacks", "returned path"])

p("C18", "Doob bridges are pinned at both ends and steered by the conditional drift",
  "The bridge drift is the SDE's drift plus dispersion squared times the gradient in x of the log transition density from (x, t) to (target, T). A simulated bridge starts at x0, follows this drift with the SDE's dispersion, targets x_T at the last time of the grid, ends exactly at x_T when replacement is asked for and is otherwise unaltered.",
  ["inputs"], "All targets, start values, time grids with any start, shapes and both SDE classes that offer a bridge.",
  "The test compares bridge moments at a loose tolerance on one grid.",
  ["fbs/sdes/linear.py", "fbs/sdes/simulators.py"], [("bridge_drift", "fbs/sdes/linear.py"), ("doob_bridge_simulator", "fbs/sdes/simulators.py")], ["bridge drift values", "returned path"])

p("C19", "Denoising score-matching losses vanish exactly at the true conditional score",
  "The conditional score is -(x - F x0)/Q for the discretisation from the initial time. Every loss of the default score type is zero when the network returns that score along the simulated paths, and otherwise equals the mean over samples and times of the squared error averaged over state entries and multiplied by the forward variance Q of its own time; the random or fixed training times lie in [t0, T], are sorted and end at T, and the memory-saving variant gives each sample its own time. The (not memory-saving) 'ipf' and 'ipf-score' variants are, in the same manner, the plain mean squared error against x_k + F x_{k-1} - F x_k and against the score of the one-step transition -(x_k - F x_{k-1})/Q, with F, Q the discretisation between the consecutive training times t_{k-1} and t_k (the first being t0).",
  ["inputs", "configurations"], "All SDEs, start times, state shapes, batch sizes, loss variants and network functions.",
  "The tests only train and compare roughly; the weighting, pairing of times and nonzero t0 are not observable there.",
  ["fbs/sdes/linear.py"], [("make_linear_sde_law_loss", "fbs/sdes/linear.py"), ("make_ou_score_matching_loss", "fbs/sdes/linear.py"), ("cond_score_t_0", "fbs/sdes/linear.py")], ["loss value", "network evaluation arguments"])

p("C20", "Gaussian Schroedinger bridge: both marginals, and a drift generating its flow",
  "The marginal mean and covariance equal (mean0, cov0) at time 0 and (mean1, cov1) at time 1, and in between the covariance is symmetric. The returned drift is affine and consistent with them at every interior time: it equals the mean's velocity at the mean, and with A its linear part the covariance's time derivative equals A Cov + Cov A^T + sig^2 I, and A is symmetric (the drift is a gradient): the process is the bridge whose end points couple as f(x0) g(x1) times the Brownian kernel.",
  ["inputs"], "All means, positive definite covariance pairs (non-commuting included), diffusion coefficients and times.",
  "The tests check one instance by simulation.",
  ["fbs/sdes/linear.py", "fbs/utils.py"], [("make_gaussian_bw_sb", "fbs/sdes/linear.py"), ("sqrtm", "fbs/utils.py")], ["returned mean, covariance, drift functions"])

p("C21", "IPF losses regress on the simulated process and agree across implementations",
  "Each IPF loss simulates the simulator process from the initial samples along the given times (increasing or decreasing, steps |t_next - t|) and averages over steps, samples and entries (the discrete form sums over steps) the squared mismatch between the parametric map at (x_next, t_next) and the one-step regression target built from the simulator at t evaluated at x and at x_next. The looped and vectorised continuous losses return the same value for the same key, and the loss is zero when the parametric drift realises the target.",
  ["inputs"], "All drifts, dispersions, time grids in both directions, batch sizes and shapes.",
  "No test compares the two implementations or checks a value of either.",
  ["fbs/dsb/base.py"], [("ipf_loss_disc, ipf_loss_cont, ipf_loss_cont_v", "fbs/dsb/base.py")], ["loss value", "drift callbacks"])

p("C22", "Dataset epochs are exact partitions; train and test sets never mix",
  "Initialising an enumeration with batch size B yields floor(n/B) batches of exactly B distinct rows, pairwise disjoint and covering rows 0..B*floor(n/B)-1, and enumerating batch i returns exactly the rows of that batch from the most recent initialisation. Random subsets have distinct rows of the whole set; batches and subsets are uniformly random. The image datasets' train and test sets built from the same file and key hold every row of their part of the file unaltered and once, and where they are split from one array they are disjoint and cover it. A corrupted image handed out with a row (painted rectangle, downsampling) is made from that very row, in enumeration and in sampling.",
  ["histories", "inputs"], "All dataset sizes, batch sizes (dividing or not), keys, and interleavings of re-initialisation, enumeration and subset draws.",
  "The tests enumerate one dataset with one batch size once.",
  ["fbs/data/base.py", "fbs/data/images.py"], [("init_enumeration, enumerate_subset, draw_subset", "fbs/data/base.py"), ("dataset constructors", "fbs/data/images.py")], ["returned batches"], [("perm_inds", "batches of the current epoch", "Dataset.perm_inds")])

p("C23", "Restoration masks partition the pixels; unpack and concat are inverses",
  "For every inpainting and super-resolution task the observed and unobserved index sets of a mask are disjoint, free of duplicates and together cover all pixels; inpainting hides exactly one s-by-s square inside the image and super-resolution observes exactly one pixel in each s-by-s block (the centre one, or a random one with every pixel of every block equally likely). Unpacking an image returns the unobserved and observed pixels in mask order with all channels and leading axes, its unobserved part has the advertised shape, and concatenating the two parts with the same mask restores the image exactly. Sampling a restoration problem returns a row of the data, a mask and the row's observed part under that mask.",
  ["inputs", "configurations"], "All image shapes (square and not, multi-channel), rates, rectangle sizes, keys and leading axes.",
  "The tests check concat-after-unpack on two shapes; it is not checked that masks have the promised geometry.",
  ["fbs/data/images.py"], [("_gen_supr_mask, _gen_inpaint_mask, unpack, concat", "fbs/data/images.py:ImageRestore")], ["mask index arrays", "unpack / concat results"])

p("C24", "Crescent model: sampler, densities, score and posterior describe one joint law",
  "The sampler draws phi from the stated Gaussian prior and y from the emission plus noise of variance xi; the prior and likelihood log densities are those of the same distributions, the score is the gradient of the joint log density ordered as (phi, y), and the gridded posterior is proportional to prior times likelihood and integrates to one over the grid.",
  ["inputs"], "All psi, xi, phi, y and grids.",
  "The test compares the score with an autodiff of the same density, so a wrong density passes.",
  ["fbs/data/bayesian.py"], [("Crescent", "fbs/data/bayesian.py:Crescent")], ["density, score, posterior values", "samples"])

p("C25", "EMA and optimiser kernels follow their schedules over any training history",
  "Over any sequence of steps, the averaged parameters equal the current parameters while the count is below the start, become decay*average + (1-decay)*current at counts that are multiples of the period, and stay unchanged otherwise. One optimiser step returns the loss at the old parameters, the parameters after applying the optimiser's update for the gradient there, and the advanced optimiser state, identically with and without compilation.",
  ["histories", "configurations"], "All interleavings of counts, start counts, periods, decays and optimisers with momentum.",
  "No test exercises the averaging schedule or a sequence of steps.",
  ["fbs/nn/utils.py"], [("make_optax_kernel", "fbs/nn/utils.py:make_optax_kernel")], ["returned parameters, state and loss"], [("ema_param", "averaged parameters", "caller")])

p("C26", "Network wrappers keep shapes, batch independence and parameter layout",
  "The UNet maps an image batch to a batch of the same spatial shape with the requested channels for every admissible size, depth and upsampling method, accepts a single unbatched image, and evaluates each batch element independently of the others, with one shared time or one time per element; times count in units of dt, so the output depends on time / dt only. The other bundled networks treat the elements of a batch independently too. Pixel shuffling is the depth-to-space bijection sending channel block (a, b) of pixel (h, w) to pixel (h*s+a, w*s+b). The sinusoidal embedding holds the sines and then the cosines of the time multiplied by the geometric frequencies from one to 1/max_period. The functional wrappers start from the network's initial parameters for the key, flatten them one to one, and evaluate the network exactly at the parameters given.",
  ["configurations", "inputs"], "All image sizes divisible as required, depths, channel counts, batch sizes, times, parameters and upsampling methods.",
  "The tests instantiate two configurations and check output shapes of multi-element batches.",
  ["fbs/nn/unet.py", "fbs/nn/utils.py", "fbs/nn/base.py", "fbs/nn/models.py"], [("UNet", "fbs/nn/unet.py"), ("PixelShuffle, make_nn_with_time", "fbs/nn/utils.py"), ("make_st_nn, sinusoidal_embedding", "fbs/nn/base.py"), ("make_simple_st_nn, CrescentMLP, GMSBMLP, MNISTResConv", "fbs/nn/models.py")], ["output shapes and values"])

p("C27", "Gaussian divergences are exact and vanish only at equality",
  "The Kullback-Leibler divergence equals half of (trace term - dimension + Mahalanobis term + log determinant ratio) of its first Gaussian from its second, and the Bures distance equals the squared 2-Wasserstein distance of the two Gaussians; both are zero for equal arguments and the latter is symmetric. The matrix square root is symmetric and squares to its argument.",
  ["inputs"], "All means and positive definite covariances, commuting or not.",
  "No test evaluates the divergences against an independent value.",
  ["fbs/utils.py"], [("kl, bures_dist, sqrtm", "fbs/utils.py")], ["returned values"])

p("C28", "Particle MCMC leaves its pseudo-marginal target exactly invariant",
  "One particle MCMC step leaves invariant the law of (path, terminal particle, likelihood estimate) proportional to the path sampler's and the filter's law times the estimate. Its marginal is the path sampler's law times the exact filtering weights: the mean of estimate times indicator of the proposed terminal particle being in state u equals the exact unnormalised filtering mass of u for the proposed path, whatever the number of particles, resampling scheme and particle chosen.",
  ["inputs", "configurations"], "All models, path laws, particle counts, steps, resamplers and chosen particles.",
  "The test compares moments of one Gaussian chain of many particles, where a biased terminal particle or accept ratio is within the noise.",
  ["fbs/samplers/smc.py"], [("pmcmc_kernel", "fbs/samplers/smc.py:pmcmc_kernel"), ("pmcmc_filter_step", "fbs/samplers/smc.py:pmcmc_filter_step")],
  ["distribution of the returned tuple for each starting state"])

p("C29", "Image corruptions and normalisations do what their task names, at random",
  "The inpainting corruption zeroes exactly one square of the task's size, its corner one of a four-by-four grid of evenly spaced places from corner to corner of the image, and leaves every other pixel unaltered; the super-resolution corruption shows the nearest-neighbour reduction of the image by four or by eight; the deblurring corruption of a one-channel image is its zero-padded convolution with a Gaussian window of the task's size, scaled to [0, 1]. Place, factor and variance (uniform on [0.1, 5]) are uniformly random for the key, independent for the rows of a batch and independent of the row sampled, which is uniform over the data. Unknown tasks are refused. Clipping cuts values to [0, 1]; normalising scales every channel of every image to [0, 1]; standardising centres and scales every column. Concatenating images puts the channels of the first before those of the second (or stacks them on a new last axis), and unpacking returns the two.",
  ["inputs", "configurations"], "All image shapes (square or not, channels), square sizes, window sizes, keys, batches and pixel values.",
  "No test runs a corruption or a normalisation on known pixels, or looks at how often which place, factor or width is drawn.",
  ["fbs/data/images.py", "fbs/data/base.py"], [("Image.paint, downsample, conv, corrupt, sampler", "fbs/data/images.py:Image"), ("normalise", "fbs/data/images.py:normalise"), ("standardise, reshape", "fbs/data/base.py:Dataset")], ["corrupted images", "sampled pairs"])

p("C30", "The Gaussian experiments hand the samplers the model they state",
  "The toy experiments (filter, Gibbs, PMCMC, twisted, conditional score) and the Schroedinger bridge experiments state a Gaussian joint law: a Gaussian process on a grid and its noisy observation, noised by the chosen SDE or bridge. For every dimension, SDE and option: the transition sampler and density, and the likelihood, handed to the sampler are one Euler-Maruyama step of the exact time reversal of that law (normalised densities of the sampler's own mean and variance); the reference sampler draws from the exact conditional of the terminal u given v, initial draws from the exact terminal law; forward paths start at the given state and carry the exact factor; the twisting density and its proposal, and the score given y, belong to the same law; bridges start from the stated law and the observation; the saved posterior mean and covariance are exact; times are uniform from zero to one; command-line options reach the sampler they name; a saved sample is one of the filter's final particles drawn uniformly (by its weight for the twisted filter) with fresh randomness, and a saved chain passes the kernel's whole state on and starts from the path its evidence estimate belongs to.",
  ["inputs", "configurations"], "All dimensions, SDEs, options, seeds, states and noise levels of the scripts listed.",
  "No test runs an experiment; a wrong drift, factor or reference only biases samples, and small-dimension pictures still look right.",
  ["experiments/toy/gp_filter.py", "experiments/toy/gp_gibbs.py", "experiments/toy/gp_pmcmc.py", "experiments/toy/gp_twisted.py", "experiments/toy/gp_csgm.py", "experiments/sb/filter.py", "experiments/sb/gibbs.py"],
  [("reverse_drift, transition_sampler, likelihood_logpdf, ref_sampler", "experiments/toy/gp_gibbs.py:ref_sampler"), ("cond_ref_sampler", "experiments/toy/gp_csgm.py:cond_ref_sampler"), ("ref_sampler, gp_posterior_sampler", "experiments/sb/filter.py:ref_sampler")], ["callbacks passed to the samplers", "saved arrays"])

p("C31", "The image restoration experiments hand the samplers the model they state",
  "The image restoration experiments (inpainting and super-resolution with filter, Gibbs and PMCMC samplers, their conditional-score and twisted variants, and super-resolution with a trained bridge) split an image by a mask into observed and unobserved pixels and restore the latter. For every SDE, mask, method and option: the transition sampler and densities and the likelihood are one Euler-Maruyama step of the reverse model of the loaded network (the averaged weights when asked for, the backward network of the bridge) evaluated on the image put together from both parts; forward paths and path samplers start at the given image and carry the SDE's exact factor (the bridge: the forward network over the whole grid); reference and initial draws are standard normal of the right size; the conditional-score sampler has exactly the law of its Euler recursion with the observed pixels noised to the step's time; the twisting density is the exact Gaussian prediction of y by one more drift step and its proposal adds b^2 times its gradient; every restored image keeps the observed pixels and places each restored value on its own pixel; the chain passes the kernel's whole state on, conditions on one observation and mask per image, and uses fresh randomness at each call; the test image with a given index does not depend on where the run starts; runs that start from named images start from those; command-line options reach the sampler they name; the whole script with the real samplers gives finite images.",
  ["inputs", "configurations"], "All SDEs, masks, rates, methods, options, seeds, states and noise levels of the scripts listed.",
  "No test runs an experiment; a wrong clock, factor or pixel order gives images that look plausible.",
  ["experiments/imgs/inpainting.py", "experiments/imgs/supr.py", "experiments/imgs/inpainting_csgm.py", "experiments/imgs/supr_csgm.py", "experiments/imgs/inpainting_twisted.py", "experiments/imgs/supr_twisted.py", "experiments/sb_imgs/supr.py"],
  [("reverse_drift, transition_sampler, likelihood_logpdf, fwd_ys_sampler", "experiments/imgs/inpainting.py:transition_sampler"), ("twisting_logpdf, twisting_prop_sampler", "experiments/imgs/supr_twisted.py:twisting_logpdf"), ("fwd_sampler, interp_x0_sampler", "experiments/sb_imgs/supr.py:fwd_sampler")], ["callbacks passed to the samplers", "saved arrays and images"])

p("C32", "Training alternates, visits and records as stated",
  "The training scripts. Diffusion models: every epoch takes disjoint batches of the size asked for in a fresh order, all images when batches divide them; each step gives the optimiser the current parameter, its own state and fresh randomness, with the loss of the chosen SDE, type, horizon, number of random times and memory option; the learning rate follows the schedule asked for (cosine to one percent after 95 percent of the epochs, four percent off per epoch, or constant), gradients are clipped by their global norm when asked; every hundredth epoch writes a checkpoint under its epoch's name with the current weights and their running average; samples after training use the averaged network. Bridges: iterations alternate between the backward network, trained on data along forward simulations (of the reference SDE in the first iteration, of the forward network in its current state afterwards), and the forward network, trained from fresh standard normal samples along backward simulations, at sorted uniform random times over the whole horizon in the right direction; the simulating network stands still during a phase, each network keeps its own optimiser state through all iterations; every iteration writes a checkpoint under its number with both networks as they are.",
  ["inputs", "histories"], "All data sizes, batch sizes, epochs, iterations, schedules, SDEs, horizons and options of the scripts.",
  "No test runs the training; a swapped network, a stale state or a wrong clock trains without error to something else.",
  ["experiments/imgs/train.py", "experiments/sb_imgs/train.py", "fbs/data/base.py", "fbs/nn/utils.py"],
  [("sb_kernel, loss_fn_init, loss_fn_bwd, loss_fn_fwd", "experiments/sb_imgs/train.py:sb_kernel"), ("the training loop, schedules and checkpoints", "experiments/imgs/train.py:schedule")], ["arguments of the losses", "parameters of every step", "checkpoints"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            f.write(json.dumps(r) + "\n")
    print(len(P), "properties")
