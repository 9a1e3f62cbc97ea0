------------------------------- MODULE CSMCMC -------------------------------
(* Exhaustive exploration of CSMC with small constants. *)
EXTENDS CSMC, Clauses, TLC
CONSTANTS N, K, MODE, WMAX
VARIABLES c, s, par, fresh
vars == <<c, s, par, fresh>>

WSet == {w \in [1..N -> 0..WMAX] : CSum(w) > 0}
Labels(f) == [i \in 1..N |-> f + i]
QOf(w) == [i \in 1..N |-> (w[i] * CScale) \div CSum(w)]
\* the conditional resampler pins the reference and selects no weightless particle otherwise
SelSet(w, i, j) == {x \in [1..N -> 0..(N - 1)] : x[j + 1] = i /\ \A a \in 1..N : w[x[a] + 1] > 0 \/ a = j + 1}

Evs ==
  {[e |-> "init", n |-> N, out |-> Labels(fresh)]}
  \cup {[e |-> "ilik", us |-> s.us, v0 |-> 0, v1 |-> 1, kw |-> 0, w |-> w] : w \in WSet}
  \cup (IF s.w = CNone \/ s.k >= K THEN {}
        ELSE LET i == c.bs[s.k + 1]  j == c.bs[s.k + 2] IN
             {[e |-> "res", q |-> QOf(s.w), i |-> i, j |-> j, cond |-> TRUE, inds |-> x] : x \in SelSet(s.w, i, j)})
  \cup (IF s.late = CNone THEN {} ELSE {[e |-> "prop", us |-> s.late, v |-> s.k - 1, t |-> s.k - 1, kw |-> 0, out |-> Labels(fresh)]})
  \cup (IF s.A = CNone \/ s.us = CNone THEN {}
        ELSE {[e |-> "prop", us |-> CTake(s.us, s.A), v |-> s.k, t |-> s.k, kw |-> 0, out |-> Labels(fresh)]}
             \cup {[e |-> "lik", us |-> CTake(s.us, s.A), v |-> s.k + 1, vp |-> s.k, t |-> s.k, kw |-> 0, w |-> w] : w \in WSet})
  \cup (IF s.k < K \/ s.late # CNone \/ Len(s.back) >= K THEN {}
        ELSE LET b == Len(s.back) IN
             {[e |-> "td", x |-> s.hist[K + 1 - b][i], us |-> s.hist[K - b], v |-> K - 1 - b, t |-> K - 1 - b, kw |-> 0, w |-> w] :
                i \in 1..N, w \in WSet})
  \cup (IF s.k < K \/ s.late # CNone THEN {}
        ELSE {[e |-> "ret", us |-> [k \in 1..(K + 1) |-> s.hist[k][b[k] + 1]], bs |-> b] : b \in [1..(K + 1) -> 0..(N - 1)]})
  \cup (IF s.k < K \/ s.late # CNone \/ MODE # "fwd" THEN {}
        ELSE {[e |-> "fret", As |-> s.As, us |-> s.hist, q |-> [k \in 1..(K + 1) |-> QOf(s.ws[k])]]})

Init == /\ c \in [n : {N}, K : {K}, star : {[k \in 1..(K + 1) |-> 100 + k]},
                  bs : [1..(K + 1) -> 0..(N - 1)], mode : {MODE}, kw : {0}]
        /\ s = CSInit(c) /\ par = <<>> /\ fresh = 0
Next == \E e \in Evs :
          /\ Ok(CSClauses(c, s, e))
          /\ e.e = "ret" => MODE # "fwd"
          /\ s' = CSStep(c, s, e)
          /\ fresh' = IF e.e \in {"init", "prop"} THEN fresh + N ELSE fresh
          /\ par' = IF e.e = "init" THEN [i \in 1..N |-> 0] ELSE IF e.e = "prop" THEN par \o e.us ELSE par
          /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* the reference survives with its own ancestry
RefKept == /\ \A k \in 1..Len(s.hist) : s.hist[k][c.bs[k] + 1] = c.star[k]
           /\ \A k \in 1..Len(s.As) : s.As[k][c.bs[k + 1] + 1] = c.bs[k]
\* everyone else was propagated from the particle its ancestor index names
Genealogy == \A k \in 1..(Len(s.hist) - 1) : \A i \in 1..N :
               i # c.bs[k + 1] + 1 => par[s.hist[k + 1][i]] = s.hist[k][s.As[k][i] + 1]
Counts == /\ Len(s.ws) <= Len(s.hist) + 1 /\ Len(s.hist) <= Len(s.ws) + 1
          /\ (s.late # CNone <=> Len(s.ws) = Len(s.hist) + 1)
          /\ \A k \in 1..Len(s.hist) : Len(s.hist[k]) = N
\* the kernel can always finish: the only stuck states are finished runs or (backward) dead ends
\* in which the selected state has no predecessor of positive density
NoStuck == s.ph = "done" \/ MODE = "backward" \/ \E e \in Evs : Ok(CSClauses(c, s, e))
=============================================================================
