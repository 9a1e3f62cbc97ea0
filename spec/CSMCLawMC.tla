------------------------------ MODULE CSMCLawMC ------------------------------
(* The smoothing law is exactly invariant under the kernel, over a family of models. *)
EXTENDS CSMCLaw
CONSTANTS N, K, FAST
VARIABLES m, scheme, mode, bs
Rows1 == <<1, 3>>
Rows2 == <<3, 1>>
Rows == {<<1, 3>>, <<3, 1>>}
Ms == [nu : {2}, p0 : {<<1, 3>>}, w0 : {<<1, 1>>, <<3, 1>>}, P : [1..K -> [1..2 -> Rows]], g : [1..K -> {<<1, 3>>, <<3, 1>>}]]
\* FAST: different tables at different steps, one model per initial weight
FMs == {x \in Ms : /\ \A k \in 1..K : x.g[k] = (IF k % 2 = 0 THEN <<3, 1>> ELSE <<1, 3>>)
                   /\ x.P[1] = <<Rows1, Rows2>> /\ \A k \in 2..K : x.P[k] = <<Rows2, Rows2>>}
Init == /\ m \in (IF FAST THEN FMs ELSE Ms)
        /\ scheme \in {"multinomial", "killing"}
        /\ mode \in {"scan", "backward"}
        /\ bs \in [1..(K + 1) -> 1..N]
Next == UNCHANGED <<m, scheme, mode, bs>>
Spec == Init /\ [][Next]_<<m, scheme, mode, bs>>
Invariant == CLInvariant(m, N, K, scheme, mode, bs)
=============================================================================
