-------------------------------- MODULE LinSDE --------------------------------
(* The linear SDEs.  Each has a clock rho(t, s), additive over adjoining intervals,
   such that the transition from s to t is x -> F x + sqrt(Q) xi with
      F = 2^-rho,  Q = V (1 - 4^-rho)      (V the stationary variance).
   With u = ln 2 (u = (ln 2)^2 for "exp"):
     const  dX = -u al X dt + ..            rho = al (t - s)
     lin    beta(t) = 2 u B(t), B affine with B(t0) = bmin, B(T) = bmax, V = 1
     exp    a(t) = -u al 2^(ka (t - z))     rho = al/ka (2^(ka (t-z)) - 2^(ka (s-z)))
   Numbers of c are <<num, den>>; times are pairs too. *)
EXTENDS Num, Clauses

Half == <<1, 2>>
BLin(c, t) == RAdd(c.bmin, RMul(RSub(c.bmax, c.bmin), RDiv(RSub(t, c.t0), RSub(c.T, c.t0))))
Exp2(c, t) == LET k == RMul(c.ka, RSub(t, c.z)) IN RTwo(k[1])    \* only integer exponents are used
Clock(c, t, s) ==
  CASE c.cls \in {"const", "ou"} -> RMul(c.al, RSub(t, s))
    [] c.cls = "lin" -> RMul(RSub(t, s), BLin(c, RMul(Half, RAdd(t, s))))
    [] c.cls = "exp" -> RMul(RDiv(c.al, c.ka), RSub(Exp2(c, t), Exp2(c, s)))
Rate(c, t) ==
  CASE c.cls \in {"const", "ou"} -> c.al
    [] c.cls = "lin" -> BLin(c, t)
    [] c.cls = "exp" -> RMul(c.al, Exp2(c, t))
FOf(rho) == RTwo(-rho[1])
QOf(c, rho) == RMul(c.V, RSub(ROne, RMul(FOf(rho), FOf(rho))))

\* one transition is a pair <<F, Q>>; transitions compose
Id == <<ROne, RZero>>
Then(a, b) == <<RMul(b[1], a[1]), RAdd(RMul(RMul(b[1], b[1]), a[2]), b[2])>>
Trans(c, t, s) == LET rho == Clock(c, t, s) IN <<FOf(rho), QOf(c, rho)>>

\* the run of an SDE through times: state = current time, transition since the first time
LInit(c) == [t |-> c.start, acc |-> Id]
Tol == 24
LClauses(c, s, e) ==
  CASE e.e = "go" ->       \* discretisation over the interval from the current time to e.t
         LET tr == Trans(c, e.t, s.t)  all == Then(s.acc, tr) IN
         << <<"F over the interval", Close(e.F, tr[1], Tol)>>,
            <<"Q over the interval", Close(e.Q, tr[2], Tol)>>,
            <<"F from the start composes", Close(e.F0, all[1], Tol)>>,
            <<"Q from the start composes", Close(e.Q0, all[2], Tol)>>,
            <<"mean agrees with F", \A i \in 1..Len(e.mean) : Close(e.mean[i], all[1], Tol)>>,
            <<"variance agrees with Q", \A i \in 1..Len(e.var) : Close(e.var[i], all[2], Tol)>>,
            <<"drift is the local rate of F", \A i \in 1..Len(e.drift) : Close(e.drift[i], RNeg(Rate(c, e.t)), Tol)>>,
            <<"dispersion is the local rate of Q", \A i \in 1..Len(e.disp) : Close(e.disp[i], Rate(c, e.t), Tol)>> >>
    [] e.e = "comp" ->     \* arbitrary real times and coefficients, in units of 1/M
         LET M == 16384
             Ok6 == \A i \in 1..6 : e.v[i] >= 0 /\ e.v[i] <= M + M \div 2 IN
         << <<"finite", Ok6>>,
            <<"F composes", Ok6 => Abs(e.v[1] * M - e.v[2] * e.v[3]) <= 8 * M>>,
            <<"Q composes", Ok6 => Abs((e.v[4] - e.v[6]) * M - ((e.v[2] * e.v[2]) \div M) * e.v[5]) <= 8 * M>>,
            <<"identity over an empty interval", e.v[7] = M /\ e.v[8] = 0>>,
            <<"the stationary variance is a fixed point", Abs(e.fix) <= 8>> >>
    [] e.e = "rate" ->
         << <<"drift is the local rate of F", \A i \in 1..Len(e.dF) : Close(e.dF[i], <<0, 1>>, 8)>>,
            <<"dispersion is the local rate of Q", \A i \in 1..Len(e.dQ) : Close(e.dQ[i], <<0, 1>>, 8)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
LStep(c, s, e) == IF e.e = "go" THEN [t |-> e.t, acc |-> Then(s.acc, Trans(c, e.t, s.t))] ELSE s
LEnd(c, s) == << >>
================================================================================
