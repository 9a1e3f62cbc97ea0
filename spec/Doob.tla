---------------------------------- MODULE Doob ----------------------------------
(* Bridge drift of a linear SDE: with F, Q the transition from t to T,
     drift + dispersion^2 d/dx log N(target; F x, Q)
       = u rate(t) ( -x + 2 V F (target - F x) / Q )
   in units of u (see LinSDE), and the ends of simulated bridges. *)
EXTENDS LinSDE
DoobDrift(c, t, T, x, target) ==
  LET tr == Trans(c, T, t) IN
  RMul(Rate(c, t), RSub(RDiv(RMul(RMul(RMul(R(2), c.V), tr[1]), RSub(target, RMul(tr[1], x))), tr[2]), x))
DoobInit(c) == [n |-> 0]
DoobClauses(c, s, e) ==
  CASE e.e = "drift" ->
         << <<"bridge drift has the state's shape", Len(e.v) = Len(e.x)>>,
            <<"bridge drift is the conditional drift", \A i \in 1..Len(e.v) : Close(e.v[i], DoobDrift(c, e.t, e.T, e.x[i], e.target[i]), 60)>> >>
    [] e.e = "ends" ->
         << <<"one point per time", e.n = e.K + 1>>,
            <<"starts at x0", Close(e.first, RZero, 0)>>,
            <<"ends exactly at the target", Close(e.last, RZero, 0)>>,
            <<"other points unaltered by the replacement", Close(e.rest, RZero, 4)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
DoobStep(c, s, e) == [n |-> s.n + 1]
DoobEnd(c, s) == << >>
================================================================================
