-------------------------------- MODULE FwdPath --------------------------------
(* Simulation of a linear SDE on a grid.  c: the SDE (see LinSDE), ts (times), mode
     "path"  X_0 = x0, X_k = F_k X_{k-1} + sqrt(Q_k) xi_k between consecutive times,
     "marg"  X_k = F X + sqrt(Q) xi_k over [c.t0, t_k], independently for each k,
   and R0^2, the number of repetitions.  A run reports, per step, the factor with which
   a displacement of the previous point (path) or of x0 arrives, and the moments of the
   noise that is left. *)
EXTENDS LinSDE, Moments

FInit(c) == [k |-> IF c.mode = "path" THEN 1 ELSE 0, start |-> FALSE, corr |-> FALSE]
Prev(c, k) == IF c.mode = "path" THEN c.ts[k - 1] ELSE c.t0
\* the transition that produces the point with (one-based) number k
TrK(c, k) == Trans(c, c.ts[k], Prev(c, k))
FClauses(c, s, e) ==
  CASE e.e = "start" -> << <<"one point per time", e.n = Len(c.ts)>>,
                           <<"the path starts at x0", c.mode = "path" => e.d = <<0, 22>> >> >>
    [] e.e = "step" ->
         LET k == s.k + 1 IN
         << <<"one step per interval", k <= Len(c.ts)>>,
            <<"the mean moves by F over this interval", k <= Len(c.ts) /\ \A i \in 1..Len(e.f) : Close(e.f[i], TrK(c, k)[1], 40)>>,
            <<"the mean from the first time", k <= Len(c.ts) /\ \A i \in 1..Len(e.f0) :
                Close(e.f0[i], Trans(c, c.ts[k], IF c.mode = "path" THEN c.ts[1] ELSE c.t0)[1], 40)>> >>
         \o (IF k > Len(c.ts) THEN <<>>
             ELSE LET ok(i) == NormalOk(e.m[i], TrK(c, k)[2], c.R0) IN
                  << <<"noise variance is Q over this interval", \A i \in 1..Len(e.m) : ok(i)[1][2]>>,
                     <<"noise is centred", \A i \in 1..Len(e.m) : ok(i)[2][2]>>,
                     <<"noise is normal", \A i \in 1..Len(e.m) : ok(i)[3][2]>> >>)
    [] e.e = "corr" -> << <<"noise is independent over steps and entries", CorrOk(e.r, c.R0)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
FStep(c, s, e) == CASE e.e = "step" -> [s EXCEPT !.k = @ + 1]
                    [] e.e = "start" -> [s EXCEPT !.start = TRUE]
                    [] e.e = "corr" -> [s EXCEPT !.corr = TRUE]
                    [] OTHER -> s
FEnd(c, s) == << <<"all points reported", s.k = Len(c.ts) /\ s.start /\ s.corr>> >>
================================================================================
