-------------------------------- MODULE Moments --------------------------------
(* Empirical moments over R*R independent repetitions against exact ones, at 6.5
   standard errors (eighteen for the fourth moment). *)
EXTENDS Num
InRange(o) == Abs(o[1]) < 67108864
\* empirical variance of a normal variable whose exact variance is v: 6.5 sqrt(2) < 9.2
VarOk(o, v, R0) == LET f == Fix(v, o[2]) IN
  InRange(o) /\ Abs(o[1] - f) <= ((f \div R0) * 92) \div 10 + 12 + f \div 100000 + (IF f = 0 THEN 0 ELSE 92)
\* the empirical mean in units of its own standard error
ZOk(o) == InRange(o) /\ 2 * Abs(o[1]) <= 13 * TwoPow(o[2])
\* m4 / m2^2
KurtOk(o, R0) == InRange(o) /\ Abs(o[1] - 3 * TwoPow(o[2])) <= (89 * TwoPow(o[2])) \div R0
CorrOk(o, R0) == InRange(o) /\ 2 * Abs(o[1]) <= (13 * TwoPow(o[2])) \div R0
\* the empirical mean (in units of 2^-10) against m when the exact variance is v (at most 40)
MeanOk(o, m, v, R0) == LET d == Abs(o[1] - Fix(m, 10)) - 2 IN
  InRange(o) /\ o[2] = 10 /\ (d <= 0 \/ (d < 40000 \div R0 /\ (d * R0) * (d * R0) <= 43 * Fix(v, 20)))
\* all moments of one entry
NormalOk(e, v, R0) ==
  << <<"noise variance", VarOk(e.var, v, R0)>>, <<"noise is centred", ZOk(e.z)>>,
     <<"noise is normal", v[1] = 0 \/ KurtOk(e.kurt, R0)>> >>
================================================================================
