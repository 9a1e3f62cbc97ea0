------------------------------- MODULE PCNMC -------------------------------
(* Moments of a pCN move for the deltas whose coefficients are rational:
   r = p/q with sqrt(1 - r^2) rational, delta = 2 r^2 / (1 - r^2), rho = 1 - r^2, second
   noise coefficient r, first noise coefficient r sqrt(1 - r^2).  For scalar N(m, C):
   the law N(m, C) is kept and the move is reversible (the joint law of (x, p) is
   exchangeable: equal means, variances and a symmetric covariance). *)
EXTENDS Rat
CONSTANT Triples      \* <<a, b, h>> with a^2 + b^2 = h^2
VARIABLES t, m, C
Init == t \in Triples /\ m \in {R(-3), R(0), Q(5, 2)} /\ C \in {Q(1, 4), R(1), R(9)}
Next == UNCHANGED <<t, m, C>>
Spec == Init /\ [][Next]_<<t, m, C>>
r == Q(t[1], t[3])
s == Q(t[2], t[3])
delta == RDiv(RMul(R(2), RMul(r, r)), RMul(s, s))
rho == RDiv(R(2), RAdd(R(2), delta))
c0 == RMul(rho, RDiv(r, s))          \* rho sqrt(delta / 2)
c1 == r                              \* sqrt(1 - rho)
RhoOK == rho = RMul(s, s)
NoiseOK == RAdd(RMul(c0, c0), RMul(c1, c1)) = RSub(ROne, RMul(rho, rho))
\* variance of p when x ~ N(m, C), its mean, and covariance with x
VarP == RMul(C, RAdd(RMul(rho, rho), RAdd(RMul(c0, c0), RMul(c1, c1))))
MeanP == RAdd(RMul(rho, m), RMul(RSub(ROne, rho), m))
Keeps == MeanP = m /\ VarP = C
=============================================================================
