------------------------------- MODULE CrescentMC -------------------------------
(* The score is the gradient of the joint energy.  The energy is a polynomial of degree at
   most four in every coordinate, so the five-point difference quotient is its derivative. *)
EXTENDS Crescent
CONSTANTS XS, PSIS, XIS
VARIABLES c, x, y
vars == <<c, x, y>>
Covs == {<< <<R(2), RZero>>, <<RZero, ROne>> >>, << <<R(2), ROne>>, <<ROne, ROne>> >>, << <<R(1), <<-1, 2>> >>, << <<-1, 2>>, <<3, 4>> >> >>}
Init == /\ \E v \in Covs, p \in PSIS, q \in XIS : c = [m |-> <<RZero, <<1, 2>> >>, icov |-> MInv(v), psi |-> R(p), xi |-> R(q)]
        /\ x \in (XS \X XS) /\ y \in XS
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
P == <<R(x[1]), R(x[2])>>
D5(f(_)) == RMul(<<1, 12>>, RSub(RMul(R(8), RSub(f(ROne), f(R(-1)))), RSub(f(R(2)), f(R(-2)))))
G == Score(c, P, R(y))
Grad == /\ G[1] = D5(LAMBDA h : Energy(c, <<RAdd(P[1], h), P[2]>>, R(y)))
        /\ G[2] = D5(LAMBDA h : Energy(c, <<P[1], RAdd(P[2], h)>>, R(y)))
        /\ G[3] = D5(LAMBDA h : Energy(c, P, RAdd(R(y), h)))
================================================================================
