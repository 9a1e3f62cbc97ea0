------------------------------ MODULE PMCMCMC ------------------------------
(* Exhaustive exploration of short PMCMC chains: whatever is proposed and decided,
   the carried triple is always one that was produced together. *)
EXTENDS PMCMC, Clauses, TLC
CONSTANTS N, K, STEPS, PCN
VARIABLES s, fresh, hist
vars == <<s, fresh, hist>>
C == [n |-> N, K |-> K, kw |-> 0, y0 |-> 1, u0 |-> 900, ell0 |-> 1, ys0 |-> [i \in 1..(K + 1) |-> 900 + i],
      delta |-> PCN, steps |-> STEPS]
WSet == {[i \in 1..N |-> 1], [i \in 1..N |-> 2], [i \in 1..N |-> IF i = 1 THEN N ELSE 0]}
MOf(w) == IF PSum(w) = N THEN 0 ELSE 1
Labels(n) == [i \in 1..n |-> 1000 + fresh + i]
V == Rev(s.prop)
Evs ==
  (IF s.done < STEPS /\ ~PCN THEN {[e |-> "fwd", y |-> 1, out |-> Labels(K + 1)]} ELSE {})
  \cup (IF s.done < STEPS /\ PCN THEN {[e |-> "pcn", x |-> s.ys, mean |-> TRUE, y |-> 1, a |-> 4096, b |-> 4096 - 7094, cs |-> <<7094>>, nd |-> 1, res |-> 0, num |-> 2, den |-> 1, out |-> Labels(K + 1)]} ELSE {})
  \cup (IF s.prop = None THEN {} ELSE {[e |-> "ref", v |-> V[1], n |-> N, out |-> Labels(N)]})
  \cup (IF s.pf = None \/ s.pf.k >= K THEN {} ELSE
         {[e |-> "lik", us |-> s.pf.us, v |-> V[s.pf.k + 2], vp |-> V[s.pf.k + 1], t |-> s.pf.k, kw |-> 0, w |-> w, m |-> MOf(w)] : w \in WSet}
         \cup (IF s.pf.sel = None THEN {} ELSE
               {[e |-> "prop", us |-> Take(s.pf.us, s.pf.sel), v |-> V[s.pf.k + 1], t |-> s.pf.k, kw |-> 0, out |-> Labels(N)]})
         \cup (IF s.pf.lik = None THEN {} ELSE
               {[e |-> "sel", q |-> [i \in 1..N |-> (s.pf.lik.w[i] * Scale) \div PSum(s.pf.lik.w)], inds |-> x] :
                  x \in {y \in [1..N -> 0..(N - 1)] : \A i \in 1..N : s.pf.lik.w[y[i] + 1] > 0}}))
  \cup (IF s.pf = None THEN {} ELSE
         {[e |-> "ret", old |-> LScale * s.ell, new |-> LScale * s.pf.bits,
           prob |-> IF s.pf.bits >= s.ell THEN Scale ELSE Scale \div Pow2(s.ell - s.pf.bits), acc |-> a,
           uT |-> IF a THEN s.pf.us[1] ELSE s.uT, ell |-> LScale * (IF a THEN s.pf.bits ELSE s.ell),
           ys |-> IF a THEN s.prop ELSE s.ys] : a \in BOOLEAN})
Init == s = PMInit(C) /\ fresh = 0 /\ hist = {<<C.u0, C.ell0, C.ys0>>}
Next == \E e \in Evs :
          /\ Ok(PMClauses(C, s, e))
          /\ s' = PMStep(C, s, e)
          /\ fresh' = IF e.e \in {"fwd", "pcn", "ref", "prop"} THEN fresh + N + K + 1 ELSE fresh
          /\ hist' = IF e.e = "ret" THEN hist \cup {<<s.pf.us[1], s.pf.bits, s.prop>>} ELSE hist
Spec == Init /\ [][Next]_vars
\* the carried triple was produced together
Together == <<s.uT, s.ell, s.ys>> \in hist
\* a certain rejection never happens to an improvement
Climb == [][s'.done > s.done => (s.pf.bits >= s.ell => s'.ell = s.pf.bits)]_vars
NoStuck == s.done = STEPS \/ \E e \in Evs : Ok(PMClauses(C, s, e))
=============================================================================
