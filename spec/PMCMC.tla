-------------------------------- MODULE PMCMC --------------------------------
(* A chain of particle MCMC steps.  The chain state is (uT, log likelihood, path);
   each step proposes a path, runs a particle filter on its reversal, and accepts
   or rejects all three at once.
   c: n, K, kw, y0 (label), u0, ell0, ys0: the chain's initial state, delta: TRUE if pCN moves are used.
   Log likelihoods are in bits (integers).  Path entries are labels; the filter's
   measurement v_k is entry K - k of the proposed path. *)
EXTENDS ParticleFilter, PCN

PFC(c) == [n |-> c.n, K |-> c.K, order |-> "sel-first", init |-> FALSE, sign |-> 1, path |-> FALSE,
           kw |-> c.kw, u0 |-> None]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Pos(vs, x) == IF \E j \in 1..Len(vs) : vs[j] = x THEN (CHOOSE j \in 1..Len(vs) : vs[j] = x) - 1 ELSE -1

PMInit(c) == [uT |-> c.u0, ell |-> c.ell0, ys |-> c.ys0, prop |-> None, us0 |-> None, pf |-> None, done |-> 0]

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* probability 2^d reported in units of 1/Scale
AccOK(d, q) == IF d >= 0 THEN PAbs(q - Scale) <= 4
               ELSE IF d <= -12 THEN q \in -4..20
               ELSE PAbs(q * Pow2(-d) - Scale) <= 4 * Pow2(-d)

\* the filter's events, with measurements named by their place in the reversed proposed path
Local(s, e) == CASE e.e = "lik" -> [e EXCEPT !.v = Pos(Rev(s.prop), e.v), !.vp = Pos(Rev(s.prop), e.vp)]
                 [] e.e = "prop" -> [e EXCEPT !.v = Pos(Rev(s.prop), e.v)]
                 [] OTHER -> e
PFRunning(s) == s.pf # None

PMClauses(c, s, e) ==
  CASE e.e = "fwd" ->
         << <<"one path proposal per step", s.prop = None>>,
            <<"forward path of y_0", e.y = c.y0>> >>
    [] e.e = "pcn" ->
         << <<"one path proposal per step", s.prop = None /\ c.delta>>,
            <<"moves the path carried by the chain", e.x = s.ys>>,
            <<"mean of the path law at every time given y_0 at the first", e.mean>>,
            <<"draws are forward paths of y_0", e.y = c.y0>> >> \o PCNClauses(e)
    [] e.e = "ref" ->
         << <<"reference particles drawn after the path", s.prop # None /\ s.us0 = None>>,
            <<"reference sampler given v_0", s.prop # None /\ Pos(Rev(s.prop), e.v) = 0>>,
            <<"reference sampler asked for n particles", e.n = c.n>> >>
    [] e.e \in {"lik", "prop", "sel"} ->
         IF PFRunning(s) THEN PFClauses(PFC(c), s.pf, Local(s, e))
         ELSE << <<"filter runs on the proposed path", FALSE>> >>
    [] e.e = "ret" ->
         << <<"the filter ran to the end", PFRunning(s) /\ s.pf.k = c.K>>,
            <<"reported previous log likelihood", PAbs(e.old - LScale * s.ell) <= 8>>,
            <<"reported proposed log likelihood", PFRunning(s) /\ PAbs(e.new - LScale * s.pf.bits) <= 8>>,
            <<"reported acceptance probability", PFRunning(s) /\ AccOK(s.pf.bits - s.ell, e.prob)>>,
            <<"certain proposals are accepted", PFRunning(s) /\ (s.pf.bits >= s.ell => e.acc)>>,
            <<"hopeless proposals are rejected", PFRunning(s) /\ (s.pf.bits < s.ell - 60 => ~e.acc)>>,
            <<"terminal particle updated together with the decision", PFRunning(s) /\
               IF e.acc THEN \E i \in 1..c.n : e.uT = s.pf.us[i] ELSE e.uT = s.uT>>,
            <<"log likelihood updated together with the decision", PFRunning(s) /\
               PAbs(e.ell - LScale * (IF e.acc THEN s.pf.bits ELSE s.ell)) <= 8>>,
            <<"path updated together with the decision", PFRunning(s) /\ e.ys = (IF e.acc THEN s.prop ELSE s.ys)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>

PMStep(c, s, e) ==
  CASE e.e \in {"fwd", "pcn"} -> [s EXCEPT !.prop = e.out]
    [] e.e = "ref" -> [s EXCEPT !.us0 = e.out, !.pf = PFInit([PFC(c) EXCEPT !.u0 = e.out])]
    [] e.e \in {"lik", "prop", "sel"} -> [s EXCEPT !.pf = PFStep(PFC(c), @, Local(s, e))]
    [] e.e = "ret" -> IF e.acc THEN [s EXCEPT !.uT = e.uT, !.ell = s.pf.bits, !.ys = s.prop, !.done = @ + 1,
                                             !.prop = None, !.us0 = None, !.pf = None]
                      ELSE [s EXCEPT !.done = @ + 1, !.prop = None, !.us0 = None, !.pf = None]
    [] OTHER -> s
PMEnd(c, s) == << <<"every step returned", s.prop = None /\ s.done = c.steps>> >>
=============================================================================
