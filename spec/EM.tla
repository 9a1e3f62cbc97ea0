---------------------------------- MODULE EM ----------------------------------
(* Euler-Maruyama integration over a grid ts[1..K+1] (increasing or not) with c.n equal
   substeps per interval, and the two simulators built on it:
     "em"    drift a(t) x + b(t)
     "rev"   drift -f(x, T - t) + g(T - t)^2 score(x, T - t), f = fa x + fb,
             score = sa x + sb, noise g(T - t), T the last grid time
     "doob"  drift bridge_drift(x, t, target, T) = a(t) x + b(t) target + h T.
   Coefficients are tables over c.ticks; a time that is not scheduled has none.
   A substep is the action EMSub; a run of the code is observed at the grid points
   (c.path) or at the end only, in three runs:
     "fix"  without noise: the points themselves,
     "disp" with noise, displaced start, same key: how the displacement evolves,
     "mom"  with noise, no linear part: moments of the increments. *)
EXTENDS Moments, Clauses

EMTime(c, k, i) == RAdd(c.ts[k], RMul(RSub(c.ts[k + 1], c.ts[k]), Q(i, c.n)))    \* i = 0..n-1
EMDt(c, k) == RMul(RAbs(RSub(c.ts[k + 1], c.ts[k])), Q(1, c.n))
EMK(c) == Len(c.ts) - 1
EMLast(c) == c.ts[Len(c.ts)]
\* the time at which the coefficients are evaluated
EMCoef(c, t) == IF c.kind = "rev" THEN RSub(EMLast(c), t) ELSE t
EMIdx(c, t) == CHOOSE j \in 1..Len(c.ticks) : c.ticks[j] = EMCoef(c, t)
EMG2(c, r, t) == IF r = "fix" THEN RZero ELSE LET g == c.g[EMIdx(c, t)] IN RMul(g, g)
EMLin(c, r, t) == IF r = "mom" THEN RZero
                  ELSE LET j == EMIdx(c, t) IN
                       IF c.kind = "rev" THEN RSub(RMul(EMG2(c, r, t), c.sa[j]), c.a[j]) ELSE c.a[j]
EMConst(c, r, t, i) == LET j == EMIdx(c, t) IN
                       CASE r = "disp" -> RZero
                         [] c.kind = "rev" -> RSub(RMul(EMG2(c, r, t), c.sb[j]), c.b[j])
                         [] c.kind = "doob" -> RAdd(RMul(c.b[j], c.tgt[i]), RMul(c.h, EMLast(c)))
                         [] OTHER -> c.b[j]
\* one substep of entry i
EMSub(c, r, t, dt, i, x) == RAdd(x, RMul(dt, RAdd(RMul(EMLin(c, r, t), x), EMConst(c, r, t, i))))
RECURSIVE EMSubs(_, _, _, _, _, _)
EMSubs(c, r, k, s, i, x) == IF s = c.n THEN x ELSE EMSubs(c, r, k, s + 1, i, EMSub(c, r, EMTime(c, k, s), EMDt(c, k), i, x))
RECURSIVE EMAt(_, _, _, _, _)
\* entry i at grid point k+1 from x at grid point 1
EMAt(c, r, k, i, x) == IF k = 0 THEN x ELSE EMSubs(c, r, k, 0, i, EMAt(c, r, k - 1, i, x))
EMRepl(c, k) == c.repl /\ k = EMK(c)
EMPoint(c, r, k, i) ==
  CASE r = "disp" -> IF EMRepl(c, k) THEN RZero ELSE EMAt(c, r, k, i, ROne)
    [] OTHER -> IF EMRepl(c, k) THEN c.tgt[i] ELSE EMAt(c, r, k, i, c.x0[i])
EMVar(c, k) == RMul(EMDt(c, k), RSumSeq([s \in 1..c.n |-> EMG2(c, "mom", EMTime(c, k, s - 1))]))
EMVarTo(c, k) == RSumSeq([j \in 1..k |-> EMVar(c, j)])

\* the observed grid points, 0 .. K or the last one only
EMObs(c) == IF c.path THEN [k \in 1..(EMK(c) + 1) |-> k - 1] ELSE <<EMK(c)>>
EMInit(c) == [fix |-> FALSE, disp |-> FALSE, mom |-> FALSE]
EMM(c) == Len(c.x0)
EMVals(c, e, r, tol) == /\ Len(e.v) = Len(EMObs(c))
                        /\ \A p \in 1..Len(e.v) : /\ Len(e.v[p]) = EMM(c)
                                                  /\ \A i \in 1..EMM(c) : Close(e.v[p][i], EMPoint(c, r, EMObs(c)[p], i), tol)
\* moments of the increments into the observed points (the first observed point has none on a path)
EMIncr(c) == IF c.path THEN [k \in 1..(EMK(c) - IF c.repl THEN 1 ELSE 0) |-> <<k - 1, k>>] ELSE << <<0, EMK(c)>> >>
EMClauses(c, s, e) ==
  CASE e.e = "fix" -> << <<"without noise every substep adds its drift times its length", EMVals(c, e, "fix", 8)>> >>
    [] e.e = "disp" -> << <<"the drift acts on the current state at the substep's own time", EMVals(c, e, "disp", 40)>> >>
    [] e.e = "mom" ->
         LET I == EMIncr(c)
             P(p, i) == EMPoint(c, "mom", I[p][2], i)
             B(p, i) == IF I[p][1] = 0 THEN c.x0[i] ELSE EMPoint(c, "mom", I[p][1], i)
             V(p) == RSub(EMVarTo(c, I[p][2]), EMVarTo(c, I[p][1])) IN
         << <<"one increment per interval", Len(e.m) = Len(I) /\ \A p \in 1..Len(e.m) : Len(e.m[p]) = EMM(c)>>,
            <<"noise variance is the sum of squared dispersions times substeps",
              Len(e.m) = Len(I) /\ \A p \in 1..Len(I) : \A i \in 1..Len(e.m[p]) : VarOk(e.m[p][i].var, V(p), c.R0)>>,
            <<"mean of the increments",
              Len(e.m) = Len(I) /\ \A p \in 1..Len(I) : \A i \in 1..Len(e.m[p]) : MeanOk(e.m[p][i].mean, RSub(P(p, i), B(p, i)), V(p), c.R0)>>,
            <<"noise is normal", Len(e.m) = Len(I) /\ \A p \in 1..Len(I) : V(p)[1] = 0 \/ \A i \in 1..Len(e.m[p]) : KurtOk(e.m[p][i].kurt, c.R0)>>,
            <<"noise is independent over steps and entries", CorrOk(e.r, c.R0)>> >>
    [] e.e = "same" -> << <<"the terminal value is the end of the path", Close(e.d, RZero, 16)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
EMStep(c, s, e) == IF e.e \in {"fix", "disp", "mom"} THEN [s EXCEPT ![e.e] = TRUE] ELSE s
EMEnd(c, s) == << <<"three runs", s.fix /\ s.disp /\ s.mom>> >>
================================================================================
