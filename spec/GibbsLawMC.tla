----------------------------- MODULE GibbsLawMC -----------------------------
EXTENDS GibbsLaw
CONSTANTS N, K, JOINT
VARIABLES m, ref, expl, y0, bs
A == <<1, 3>>
B == <<3, 1>>
C == <<2, 2>>
Ts == { <<<<A, B>>, <<C, A>>>>, <<<<B, A>>, <<B, C>>>> }
Ms == [p0 : {<<<<1, 3>>, <<1, 3>>>>}, T : [1..K -> Ts], G : [1..K -> {<<<<A, B>>, <<B, A>>>>, <<<<B, A>>, <<A, C>>>>}]]
\* without the reference law, u_0 and v_0 may depend
Dep(x) == [x EXCEPT !.p0 = <<<<1, 3>>, <<2, 1>>>>]
Init == /\ m \in Ms \cup {Dep(x) : x \in Ms}
        /\ ref \in BOOLEAN /\ expl \in BOOLEAN
        /\ ref => m.p0 = <<<<1, 3>>, <<1, 3>>>>
        /\ y0 \in 1..2
        /\ bs \in [1..(K + 1) -> 1..N]
        /\ JOINT => bs = [i \in 1..(K + 1) |-> 1] /\ ~expl
Next == UNCHANGED <<m, ref, expl, y0, bs>>
Spec == Init /\ [][Next]_<<m, ref, expl, y0, bs>>
Invariant == IF JOINT THEN GLJoint(m, N, K, ref, y0) ELSE GLInvariant(m, N, K, ref, expl, y0, bs)
=============================================================================
