--------------------------- MODULE ParticleLawMC ---------------------------
(* Unbiasedness of the evidence estimate, exactly, over a family of models. *)
EXTENDS ParticleLaw
CONSTANTS N, K, FAST
VARIABLES m, scheme, order
Rows == {<<1, 3>>, <<3, 1>>, <<0, 4>>}
Dens == {<<1, 3>>, <<3, 1>>, <<1, 1>>}
\* FAST: a smaller family, homogeneous transitions
Ps == IF FAST THEN {[k \in 1..K |-> <<a, b>>] : a \in {<<1, 3>>, <<0, 4>>}, b \in {<<1, 3>>, <<3, 1>>}}
      ELSE [1..K -> {<<a, b>> : a \in Rows, b \in Rows}]
Init == /\ m \in [nu : {2}, p0 : {<<1, 3>>, <<1, 1>>},
                  P : Ps, g : [1..K -> Dens]]
        /\ scheme \in {"multinomial", "stratified", "systematic", "killing"}
        /\ order \in {"sel-first", "prop-first"}
Next == UNCHANGED <<m, scheme, order>>
Spec == Init /\ [][Next]_<<m, scheme, order>>
Unbiased1 == UnbiasedRun(m, N, K, scheme, order)
=============================================================================
