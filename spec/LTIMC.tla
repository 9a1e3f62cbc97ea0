--------------------------------- MODULE LTIMC ---------------------------------
(* The two families form semigroups: running step by step is the direct discretisation. *)
EXTENDS LTI
CONSTANTS STEPS
VARIABLES c, s, n
Z == RZero
I1 == ROne
Nil == [fam : {"nil"},
        A : {<< <<Z, I1>>, <<Z, Z>> >>, << <<R(1), R(-1)>>, <<R(1), R(-1)>> >>, << <<Z, R(2)>>, <<Z, Z>> >>},
        G : {MId(2), << <<Z, Z>>, <<Z, I1>> >>, << <<R(2), R(1)>>, <<R(1), R(1)>> >>}]
Nil3 == [fam : {"nil"}, A : {<< <<Z, I1, R(2)>>, <<Z, Z, I1>>, <<Z, Z, Z>> >>}, G : {MId(3), << <<Z, Z, Z>>, <<Z, I1, Z>>, <<Z, Z, R(2)>> >>}]
Diag == [fam : {"diag"}, S : {MId(2), << <<R(1), R(1)>>, <<R(0), R(1)>> >>, << <<R(2), R(1)>>, <<R(1), R(1)>> >>},
         al : {<<R(1), R(1)>>, <<R(1), R(2)>>, <<R(0), R(1)>>, <<R(1), R(-1)>>}, G : {MId(2), << <<R(2), R(1)>>, <<R(1), R(1)>> >>}]
Init == c \in Nil \cup Nil3 \cup Diag /\ s = TInit0(c) /\ n = 0
Next == n < STEPS /\ n' = n + 1 /\ UNCHANGED c /\ \E dt \in {R(0), R(1), R(2)} : s' = TGo(c, s, dt)
Spec == Init /\ [][Next]_<<c, s, n>>
Direct == s.F = LF(c, s.t) /\ s.Q = LQ(c, s.t)
Symmetric == MSym(s.Q)
================================================================================
