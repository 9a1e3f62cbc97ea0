--------------------------- MODULE ParticleFilter ---------------------------
(* One run of a bootstrap-type particle filter as a state machine.

   Particles are abstract labels.  A step k of the run consists of three events,
   in any order the data flow allows:
     prop   the transition sampler is applied to an array of particles,
     lik    the measurement density is evaluated for the current particles,
     sel    the resampler is given the normalised weights and returns ancestors.
   c (constant over the run) holds
     n      number of particles           K     number of steps
     order  "prop-first": the current particles are propagated and the
            propagated ones are selected (bootstrap filter),
            "sel-first": ancestors are selected and propagated (PMCMC filter)
     init   TRUE if the run starts by drawing the particles, else u0 has them
     sign   +1 / -1: the run returns sign * log of the evidence estimate
     path   TRUE if the kept particles of all steps are returned
   Measurements and times are identified by their index 0..K.
   Weights are integers W with  sum W = n * 2^m ; the density carries the common
   factor 2^shift, so the log evidence in bits is the integer  sum (m + shift). *)
EXTENDS Integers, Sequences, FiniteSets

Scale == 65536     \* quantum of reported normalised weights
LScale == 1024     \* quantum of reported log evidence (bits)

PAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + PSum(Tail(s))

None == <<>>

PFInit(c) == [ph |-> IF c.init THEN "init" ELSE "run", k |-> 0,
              us |-> IF c.init THEN None ELSE c.u0,
              prop |-> None, lik |-> None, sel |-> None,
              bits |-> 0,
              hist |-> IF c.init THEN <<>> ELSE <<c.u0>>]

\* inds are 0-based, as the code's arrays
Take(us, inds) == [i \in 1..Len(inds) |-> us[inds[i] + 1]]
GoodInds(n, inds) == Len(inds) = n /\ \A i \in 1..n : inds[i] \in 0..(n - 1)

WeightsMatch(W, q) ==
    LET S == PSum(W) IN
    /\ Len(q) = Len(W)
    /\ \A i \in 1..Len(W) : PAbs(q[i] * S - W[i] * Scale) <= 2 * S

PFClauses(c, s, e) ==
  CASE e.e = "init" ->
         << <<"initial sampler called once, first", s.ph = "init">>,
            <<"initial sampler given v_0", e.v = 0>>,
            <<"initial sampler asked for n particles", e.n = c.n>> >>
    [] e.e = "prop" ->
         << <<"propagation only during a step", s.ph = "run" /\ s.k < c.K /\ s.prop = None>>,
            <<"selected ancestors are propagated", c.order = "sel-first" => s.sel # None>>,
            <<"particles handed to the transition sampler",
              e.us = IF c.order = "sel-first" THEN Take(s.us, s.sel) ELSE s.us>>,
            <<"transition given v_{k-1}", e.v = s.k>>,
            <<"transition given t_{k-1}", e.t = s.k>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "lik" ->
         << <<"one weighting per step", s.ph = "run" /\ s.k < c.K /\ s.lik = None>>,
            <<"current particles are weighed", e.us = s.us>>,
            <<"weighed against v_k", e.v = s.k + 1>>,
            <<"weight conditions on v_{k-1}", e.vp = s.k>>,
            <<"weight evaluated at t_{k-1}", e.t = s.k>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "sel" ->
         << <<"selection follows weighting", s.ph = "run" /\ s.lik # None /\ s.sel = None>>,
            <<"resampler given the normalised weights", s.lik # None /\ WeightsMatch(s.lik.w, e.q)>>,
            <<"resampler returns n indices", GoodInds(c.n, e.inds)>> >>
    [] e.e = "ret" ->
         << <<"all steps were run", s.ph = "run" /\ s.k = c.K>>,
            <<"returned particles", e.us = IF c.path THEN s.hist ELSE s.us>>,
            <<"returned log evidence", PAbs(e.ell - c.sign * LScale * s.bits) <= 8>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>

Commit(c, s) ==
  IF s.prop = None \/ s.lik = None \/ s.sel = None THEN s
  ELSE LET new == IF c.order = "sel-first" THEN s.prop ELSE Take(s.prop, s.sel)
       IN [s EXCEPT !.k = @ + 1, !.us = new, !.prop = None, !.lik = None, !.sel = None,
                    !.bits = @ + s.lik.m, !.hist = Append(@, new)]

PFStep(c, s, e) ==
  CASE e.e = "init" -> [s EXCEPT !.ph = "run", !.us = e.out, !.hist = <<e.out>>]
    [] e.e = "prop" -> Commit(c, [s EXCEPT !.prop = e.out])
    [] e.e = "lik"  -> Commit(c, [s EXCEPT !.lik = [w |-> e.w, m |-> e.m]])
    [] e.e = "sel"  -> Commit(c, [s EXCEPT !.sel = e.inds])
    [] e.e = "ret"  -> [s EXCEPT !.ph = "done"]
    [] OTHER -> s

PFEnd(c, s) == << <<"the run returned", s.ph = "done">> >>
=============================================================================
