------------------------------ MODULE TwistedMC ------------------------------
(* Exhaustive exploration of Twisted with small constants.  A ghost variable keeps,
   for every live particle, the exponent of the product of (transition / proposal)
   ratios along its lineage and the exponent of its weight times the product of the
   mean-free incremental weights of its ancestors; the twisting values telescope. *)
EXTENDS Twisted, Clauses, TLC
CONSTANTS N, K, EMAX
VARIABLES s, fresh, lin      \* lin[i]: [ratio, inc]
vars == <<s, fresh, lin>>
C == [n |-> N, K |-> K, y |-> 7, kw |-> 0]
Exps == [1..N -> {Zero} \cup 0..EMAX]
PosExps == [1..N -> 0..EMAX]
Alive(es) == \E i \in 1..N : es[i] > Zero
Labels == [i \in 1..N |-> fresh + i]
QOf(w) == [i \in 1..N |-> (w[i] * TWScale) \div TSum(w)]
Evs ==
  {[e |-> "init", n |-> N, out |-> Labels]}
  \cup {[e |-> "tw", us |-> u, t |-> IF s.ph = "itw" THEN 0 ELSE s.k + 1, y |-> 7, kw |-> 0, w |-> w] :
          u \in {s.us, s.prop}, w \in {x \in Exps : Alive(x)}}
  \cup (IF s.w = NoneT \/ TSum(s.w) = 0 THEN {} ELSE
        {[e |-> "sel", q |-> QOf(s.w), inds |-> x] : x \in {z \in [1..N -> 0..(N - 1)] : \A i \in 1..N : s.w[z[i] + 1] > 0}})
  \cup (IF s.A = NoneT THEN {} ELSE {[e |-> "prop", us |-> Sel(s), t |-> s.k + 1, y |-> 7, kw |-> 0, out |-> Labels]})
  \cup (IF s.prop = NoneT THEN {} ELSE
        {[e |-> "td", us |-> s.prop, up |-> Sel(s), t |-> s.k + 1, w |-> w] : w \in PosExps}
        \cup {[e |-> "pd", us |-> s.prop, up |-> Sel(s), t |-> s.k + 1, y |-> 7, kw |-> 0, w |-> w] : w \in PosExps})
  \cup (IF s.w = NoneT \/ TSum(s.w) = 0 THEN {} ELSE {[e |-> "ret", us |-> s.us, q |-> QOf(s.w)]})
\* data-flow order only: td before pd before tw, to keep the exploration small
Ordered(e) == (e.e = "pd" => s.td # NoneT) /\ (e.e = "tw" /\ s.ph = "run" => s.pd # NoneT)
Init == s = TWInit(C) /\ fresh = 0 /\ lin = NoneT
Next == \E e \in Evs :
          /\ Ordered(e)
          /\ Ok(TWClauses(C, s, e))
          /\ s' = TWStep(C, s, e)
          /\ fresh' = IF e.e \in {"init", "prop"} THEN fresh + N ELSE fresh
          /\ lin' = IF e.e = "tw"
                    THEN IF s.ph = "itw" THEN [i \in 1..N |-> [ratio |-> 0, inc |-> e.w[i]]]
                         ELSE [i \in 1..N |->
                                LET a == s.A[i] + 1
                                    r == s.td[i] - s.pd[i]
                                IN [ratio |-> lin[a].ratio + r,
                                    inc |-> ESub(EAdd(EAdd(lin[a].inc, r), e.w[i]), s.tw[a])]]
                    ELSE lin
Spec == Init /\ [][Next]_vars
\* product of all incremental weights along a lineage = (transition/proposal ratios) * final twisting value
Telescopes == (s.ph = "run" /\ s.ntw = NoneT /\ s.A = NoneT) =>
                \A i \in 1..N : lin[i].inc = IF s.tw[i] <= Zero THEN Zero ELSE lin[i].ratio + s.tw[i]
=============================================================================
