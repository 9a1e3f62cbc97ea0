------------------------------- MODULE GibbsMC -------------------------------
(* Exhaustive exploration of short chains of Gibbs sweeps and of the initialisation. *)
EXTENDS Gibbs, Clauses, TLC
CONSTANTS N, K, STEPS, MODE, METHOD, WMAX
VARIABLES c, s, fresh, last, dead
vars == <<c, s, fresh, last, dead>>
Labels(f, n) == [i \in 1..n |-> f + i]
RECURSIVE GSum(_)
GSum(w) == IF w = <<>> THEN 0 ELSE Head(w) + GSum(Tail(w))
YLab == [i \in 1..(K + 1) |-> IF i = 1 THEN c.y0 ELSE 50000 + fresh + i]
VV == V(c, s)
Cur0 == {x \in [1..c.np -> {fresh + i : i \in 1..c.np} \cup (IF Kern(c) THEN {U(c, s)[1]} ELSE {})] : TRUE}
SelSets == IF s.xs = GNone \/ s.k >= K THEN {}
           ELSE IF s.sel # GNone THEN {s.sel}
           ELSE IF s.k = 0
           THEN IF Kern(c) /\ ~c.ref THEN {[i \in 1..c.np |-> U(c, s)[1]]}
                ELSE {[i \in 1..c.np |-> IF Kern(c) /\ i = s.bs[2] + 1 THEN U(c, s)[1] ELSE fresh + i]}
           ELSE {x \in [1..c.np -> {s.cur[a] : a \in 1..c.np}] : Selection(c, s, x)}
WSets(us) == {w \in [1..c.np -> 0..WMAX] : GSum(w) > 0 /\ (Kern(c) => \A i \in 1..c.np : us[i] \in {s.xs[a] : a \in 1..(K + 1)} => w[i] > 0)}
Evs ==
  (IF s.done < c.steps /\ (s.xs = GNone \/ (s.k = K /\ s.xs2 = GNone))
   THEN {[e |-> "fwd", x |-> x, y |-> c.y0, kw |-> 0, xs |-> <<x>> \o Labels(fresh, K), ys |-> YLab] :
            x \in IF s.xs = GNone THEN {s.x0} ELSE {s.cur[a] : a \in 1..c.np}} ELSE {})
  \cup UNION {
     {[e |-> "prop", us |-> us, v |-> VV[s.k + 1], t |-> s.k, kw |-> 0, out |-> Labels(fresh + c.np, c.np)]}
     \cup {[e |-> "lik", us |-> us, v |-> VV[s.k + 2], vp |-> VV[s.k + 1], t |-> s.k, kw |-> 0, w |-> w] : w \in WSets(us)}
       : us \in SelSets}
  \cup (IF MODE # "init" \/ METHOD # "smoother" \/ s.k < K \/ Len(s.sm) >= K THEN {}
        ELSE LET j == Len(s.sm) IN
             {[e |-> "td", x |-> x, us |-> s.anc[K - j], v |-> VV[K - j], t |-> K - 1 - j, kw |-> 0, w |-> w] :
                x \in IF j = 0 THEN Final(c, s) ELSE {s.anc[K + 1 - j][i] : i \in 1..c.np}, w \in {z \in [1..c.np -> 0..1] : GSum(z) > 0}})
  \cup (IF ~Kern(c) \/ s.xs = GNone \/ s.k < K \/ s.done >= c.steps THEN {}
        ELSE LET bb == [1..(K + 1) -> 0..(c.np - 1)] IN
             IF c.expl THEN {[e |-> "ret", x |-> s.x1, us |-> Rv(s.xs2), bs |-> b, fl |-> [i \in 1..(K + 1) |-> b[i] # s.bs[i]]] : b \in bb}
             ELSE {[e |-> "ret", x |-> s.hist[K][b[K + 1] + 1], bs |-> b, fl |-> [i \in 1..(K + 1) |-> b[i] # s.bs[i]],
                    us |-> [i \in 1..(K + 1) |-> IF i = 1 THEN s.anc[1][b[2] + 1] ELSE s.hist[i - 1][b[i] + 1]]] : b \in bb})
  \cup (IF Kern(c) \/ s.xs = GNone \/ s.k < K THEN {}
        ELSE CASE METHOD = "filter" -> IF s.xs2 = GNone THEN {} ELSE {[e |-> "iret", x |-> s.x1, us |-> Rv(s.xs2), all |-> <<>>]}
               [] METHOD = "debug" -> {[e |-> "iret", x |-> 0, us |-> <<>>, all |-> Append(s.anc, [i \in 1..c.np |-> CHOOSE z \in Final(c, s) : TRUE])]}
               [] OTHER -> IF Len(s.sm) < K THEN {} ELSE
                    {[e |-> "iret", x |-> x, all |-> <<>>, us |-> [i \in 1..(K + 1) |-> IF i = 1 THEN y ELSE s.sm[K + 2 - i].x]] :
                        x \in Final(c, s), y \in {s.anc[1][i] : i \in 1..c.np}})
Init == /\ c \in [mode : {MODE}, K : {K}, np : {N}, n : {N}, y0 : {7}, x0 : {9}, bs : [1..(K + 1) -> 0..(N - 1)],
                  marg : BOOLEAN, expl : BOOLEAN, ref : BOOLEAN, method : {METHOD}, kw : {0}, steps : {STEPS}]
        /\ (MODE = "init" => c.ref /\ ~c.expl /\ c.bs = [i \in 1..(K + 1) |-> 0])
        /\ s = GInit(c) /\ fresh = 1000 /\ last = GNone /\ dead = FALSE
Next == \E e \in Evs :
          /\ Ok(GClauses(c, s, e))
          /\ s' = GStep(c, s, e)
          /\ fresh' = fresh + 2 * N + K + 1
          /\ last' = IF e.e \in {"ret", "iret"} THEN [e |-> e, p |-> s] ELSE last
          /\ UNCHANGED <<c, dead>>
Spec == Init /\ [][Next]_vars
\* the reference trajectory (the reversed forward path) survives the filter in its slots
RefKept == Kern(c) /\ s.xs # GNone => \A k \in 1..Len(s.hist) : s.hist[k][s.bs[k + 1] + 1] = U(c, s)[k + 1]
\* the filter starts at the end of the y path and ends at the observation
Ends == s.xs # GNone => V(c, s)[K + 1] = c.y0 /\ V(c, s)[1] = s.ys[K + 1]
\* the state after a sweep: x0 ends the trajectory and was alive at the last step
Returned == last # GNone =>
   /\ (last.e.e = "ret" => /\ last.e.us[K + 1] = last.e.x
                           /\ \E a \in 1..N : last.p.cur[a] = last.e.x
                           /\ s.done > 0 => (last.e.x = s.x0 \/ s.xs # GNone))
\* a sweep can return the very state it started from (the chain is never forced away)
NoStuck == s.done = c.steps \/ (MODE = "init" /\ METHOD = "smoother" /\ s.k = K) \/ \E e \in Evs : Ok(GClauses(c, s, e))
=============================================================================
