---------------------------------- MODULE DTS ----------------------------------
(* The discrete-time simulator: X <- f(X, t_{k+1}, t_k) + q(t_{k+1}, t_k) xi, for
   k = 0 .. K-1, with f affine: f(x, t_j, t_i) = A[j][i] x + B[j][i] (one-based ticks). *)
EXTENDS Moments, Clauses
RECURSIVE DRun(_, _, _)
\* after the steps from k on: <<factor, offset, variance>>
DRun(c, k, a) == IF k = c.K + 1 THEN a
                 ELSE LET A == c.A[k + 1][k]  B == c.B[k + 1][k]  q == c.q[k + 1][k] IN
                      DRun(c, k + 1, <<RMul(A, a[1]), RAdd(RMul(A, a[2]), B), RAdd(RMul(RMul(A, A), a[3]), RMul(q, q))>>)
DAll(c) == DRun(c, 1, <<ROne, RZero, RZero>>)
DInit(c) == [n |-> 0]
DClauses(c, s, e) ==
  CASE e.e = "dts" ->
         LET r == DAll(c) IN
         << <<"shape of the state", e.shape>>,
            <<"mean functions of the intervals, in order", \A i \in 1..Len(e.fix) : Close(e.fix[i], RAdd(RMul(r[1], c.x0[i]), r[2]), 8)>>,
            <<"noise variance accumulates with the scales of the intervals", \A i \in 1..Len(e.m) : VarOk(e.m[i].var, r[3], c.R0)>>,
            <<"noise is centred", \A i \in 1..Len(e.m) : ZOk(e.m[i].z)>>,
            <<"noise is normal", r[3][1] = 0 \/ \A i \in 1..Len(e.m) : KurtOk(e.m[i].kurt, c.R0)>>,
            <<"noise is independent over entries", CorrOk(e.r, c.R0)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
DStep(c, s, e) == [n |-> s.n + 1]
DEnd(c, s) == << <<"reported", s.n = 1>> >>
================================================================================
