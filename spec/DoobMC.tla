--------------------------------- MODULE DoobMC ---------------------------------
(* The bridge drift steers: halfway identities of the exact drift on small instances.
   At the target's preimage (target = F x) only the prior drift is left; the drift is
   affine in (x, target), and x = 0, target = 0 is left alone. *)
EXTENDS Doob, TLC
CONSTANTS TIMES
VARIABLES t, T, x, y
Cc == [cls |-> "const", al |-> ROne, V |-> <<3, 2>>, start |-> RZero]
Init == t \in TIMES /\ T \in TIMES /\ t < T /\ x \in -3..3 /\ y \in -3..3
Next == UNCHANGED <<t, T, x, y>>
Spec == Init /\ [][Next]_<<t, T, x, y>>
D(a, b) == DoobDrift(Cc, R(t), R(T), a, b)
Affine == D(R(x), R(y)) = RAdd(RMul(R(x), D(ROne, RZero)), RMul(R(y), D(RZero, ROne)))
Prior == D(R(x), RMul(FOf(R(T - t)), R(x))) = RNeg(R(x))
Pull == RLt(D(R(x), R(y)), D(R(x), R(y + 1)))
================================================================================
