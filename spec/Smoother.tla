------------------------------ MODULE Smoother ------------------------------
(* Backward simulation through stored filter particles.  F[k+1] is the sequence of
   particle labels of time k; state: sel = <<[x, d]>> the states selected so far for
   times K, K-1, .. with the densities of the previous time's particles. *)
EXTENDS Integers, Sequences

SMInit == <<>>
\* F[K+1] may be known only as a set of admissible labels (last)
SMClauses(c, F, last, sel, e) ==
  LET j == Len(sel)                 \* selections done; the next is of time K - j
      due == j < c.K
  IN << <<"one density evaluation per time", due>>,
        <<"density of a state selected among the particles of the next time",
          due /\ IF j = 0 THEN e.x \in last
                 ELSE \E i \in 1..Len(F[c.K + 1 - j]) : F[c.K + 1 - j][i] = e.x /\ sel[j].d[i] > 0>>,
        <<"given each particle of the time before", due /\ e.us = F[c.K - j]>>,
        <<"density given v_k", due /\ e.v = c.K - 1 - j>>,
        <<"density given t_k", due /\ e.t = c.K - 1 - j>>,
        <<"keyword arguments forwarded", e.kw = c.kw>> >>
SMStep(sel, e) == Append(sel, [x |-> e.x, d |-> e.w])
\* the returned path in forward order
SMPath(c, F, last, sel, us) ==
  /\ Len(us) = c.K + 1
  /\ Len(sel) = c.K
  /\ \A j \in 1..c.K : us[c.K + 2 - j] = sel[j].x
  /\ IF c.K = 0 THEN us[1] \in last
     ELSE \E i \in 1..Len(F[1]) : F[1][i] = us[1] /\ sel[c.K].d[i] > 0
=============================================================================
