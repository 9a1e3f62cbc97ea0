------------------------------- MODULE DivergeMC -------------------------------
(* Transport on small instances: with a map T and C1 = T C0 T, no coupling with cross
   covariance T C0 + E (E small, the joint still a covariance) is cheaper -- i.e. the trace
   of the cross covariance is largest at T C0; the distance equals tr(C0 + C1) - 2 tr(root)
   with root^2 similar to C0 C1; it is zero only for equal arguments. *)
EXTENDS Diverge
CONSTANTS AMAX, BMAX, PMAX
VARIABLES c, E
vars == <<c, E>>
Two(a, b, d) == << <<R(a), R(b)>>, <<R(b), R(d)>> >>
Spd == {M \in {Two(a, b, d) : a \in 1..AMAX, b \in -BMAX..BMAX, d \in 1..AMAX} : Pd(M)}
Pert == {<< <<Q(a, 4), Q(b, 4)>>, <<Q(p, 4), Q(q, 4)>> >> : a \in -PMAX..PMAX, b \in {-1, 0}, p \in {0, 1}, q \in -PMAX..PMAX}
Init == /\ \E A \in Spd, T \in Spd : c = [m0 |-> <<R(0), R(1)>>, m1 |-> <<R(2), R(-1)>>, C0 |-> A, T |-> T, C1 |-> TLCEval(MMul(T, MMul(A, T)))]
        /\ E = MZero(2)
Move == E = MZero(2) /\ E' \in Pert /\ UNCHANGED c
Spec == Init /\ [][Move]_vars
\* the joint covariance [C0, S'; S, C1] is nonnegative iff C1 - S inv(C0) S' is (C0 is positive definite)
Joint(S) == LET X == TLCEval(MSub(c.C1, MMul(S, MMul(MInv(c.C0), MT(S))))) IN
            RLe(RZero, X[1][1]) /\ RLe(RZero, X[2][2]) /\ RLe(RZero, MDet(X))
Cost(S) == RAdd(Sq(VSub(c.m0, c.m1)), RSub(RAdd(MTrace(c.C0), MTrace(c.C1)), RMul(R(2), MTrace(S))))
Optimal == LET S == MAdd(MMul(c.T, c.C0), E) IN Joint(S) => RLe(W2(c), Cost(S))
Attained == Cost(MMul(c.T, c.C0)) = W2(c)
OnlyEqual == LET same == [c EXCEPT !.m1 = c.m0] IN (W2(same) = RZero) <=> (c.C1 = c.C0)
================================================================================
