-------------------------------- MODULE PFMC --------------------------------
(* Exhaustive exploration of ParticleFilter with small constants: every order of
   commuting events, every selection, every weight vector of a small set. *)
EXTENDS ParticleFilter, Clauses, TLC
CONSTANTS N, K, ORDER
VARIABLES s, par, fresh, prodw
vars == <<s, par, fresh, prodw>>
C == [n |-> N, K |-> K, order |-> ORDER, init |-> TRUE, sign |-> -1, path |-> TRUE, kw |-> 0]

\* labels are numbered; par[x] = <<step, parent label>>
WSet == {w \in [1..N -> 0..(2 * N)] : PSum(w) \in {N, 2 * N}}
MOf(w) == IF PSum(w) = N THEN 0 ELSE 1
Labels(f) == [i \in 1..N |-> f + i]
QOf(w) == [i \in 1..N |-> (w[i] * Scale) \div PSum(w)]
\* the resampler never selects a particle of weight zero
SelSet(w) == {x \in [1..N -> 0..(N - 1)] : \A i \in 1..N : w[x[i] + 1] > 0}

Events ==
  {[e |-> "init", v |-> 0, n |-> N, out |-> Labels(fresh)]}
  \cup {[e |-> "prop", us |-> u, v |-> s.k, t |-> s.k, kw |-> 0, out |-> Labels(fresh)] :
          u \in {s.us} \cup (IF s.sel = None THEN {} ELSE {Take(s.us, s.sel)})}
  \cup {[e |-> "lik", us |-> s.us, v |-> s.k + 1, vp |-> s.k, t |-> s.k, kw |-> 0, w |-> w, m |-> MOf(w)] : w \in WSet}
  \cup (IF s.lik = None THEN {} ELSE {[e |-> "sel", q |-> QOf(s.lik.w), inds |-> x] : x \in SelSet(s.lik.w)})
  \cup {[e |-> "ret", us |-> s.hist, ell |-> -LScale * s.bits]}

Init == s = PFInit(C) /\ par = <<>> /\ fresh = 0 /\ prodw = 1
Next == \E e \in Events :
          /\ Ok(PFClauses(C, s, e))
          /\ s' = PFStep(C, s, e)
          /\ fresh' = IF e.e \in {"init", "prop"} THEN fresh + N ELSE fresh
          /\ par' = IF e.e = "init" THEN [i \in 1..N |-> 0]
                    ELSE IF e.e = "prop" THEN par \o e.us ELSE par
          /\ prodw' = IF e.e = "lik" THEN prodw * PSum(e.w) ELSE prodw
Spec == Init /\ [][Next]_vars

\* every kept particle is a child of a particle kept one step earlier, down to the initial draw
Genealogy == \A k \in 2..Len(s.hist) : \A i \in 1..N :
                \E j \in 1..N : par[s.hist[k][i]] = s.hist[k - 1][j]
\* the kept particles are exactly n at every step
Count == \A k \in 1..Len(s.hist) : Len(s.hist[k]) = N
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* 2^bits * n^k = product of the weight sums over completed steps
Evidence == (s.lik = None) => (Pow(2, s.bits) * Pow(N, s.k) = prodw)
Finishes == s.ph = "done" => s.k = K /\ Len(s.hist) = K + 1
\* the only states without successors are finished runs
NoStuck == s.ph = "done" \/ \E e \in Events : Ok(PFClauses(C, s, e))
=============================================================================
