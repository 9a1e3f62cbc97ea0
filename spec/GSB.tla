----------------------------------- MODULE GSB -----------------------------------
(* Gaussian Schroedinger bridge over [0, 1] with reference sig * Brownian motion.

   Defining data: the coupling of the ends.  (X0, X1) is jointly Gaussian with marginals
   (m0, C0), (m1, C1) and a density f(x0) g(x1) exp(-|x1 - x0|^2 / (2 sig^2)): the
   off-diagonal block of the joint precision is -I / sig^2, which for the cross
   covariance C reads
        sig^2 C inv(C1) + C inv(C1) C' = C0.                              (Coupling)
   Given the ends the process is a Brownian bridge:
        X_t = (1 - t) X0 + t X1 + sqrt(sig^2 t (1 - t)) Z,
   and its drift is E[X1 - X_t | X_t] / (1 - t).  All numbers are rationals. *)
EXTENDS Num, Clauses, TLC

Coupling(g) == LET K == TLCEval(MMul(g.C, MInv(g.C1)))
               IN MAdd(MScale(g.s2, K), MMul(K, MT(g.C))) = g.C0
\* the conditional covariance of X0 given X1 is sig^2 C inv(C1)
Proper(g) == LET S == MMul(g.C, MInv(g.C1)) IN
             /\ MSym(S) /\ RLt(RZero, S[1][1]) /\ RLt(RZero, MDet(S))
             /\ MSym(g.C1) /\ RLt(RZero, g.C1[1][1]) /\ RLt(RZero, MDet(g.C1))
             /\ MSym(g.C0) /\ RLt(RZero, g.C0[1][1]) /\ RLt(RZero, MDet(g.C0))

Mean(g, t) == VAdd(VScale(RSub(ROne, t), g.m0), VScale(t, g.m1))
Cov(g, t) ==
  LET r == RSub(ROne, t)  rt == RMul(r, t) IN
  MAdd(MAdd(MScale(RMul(r, r), g.C0), MScale(RMul(t, t), g.C1)),
       MScale(rt, MAdd(MAdd(g.C, MT(g.C)), MScale(g.s2, MId(Len(g.C0))))))
\* Cov(X1 - X_t, X_t) / (1 - t): polynomial in t, also at t = 1
CrossRaw(g, t) ==
  LET r == RSub(ROne, t) IN
  MSub(MAdd(MScale(r, MT(g.C)), MScale(t, g.C1)),
       MAdd(MScale(r, g.C0), MScale(t, MAdd(g.C, MScale(g.s2, MId(Len(g.C0)))))))
Cross(g, t) == TLCEval(CrossRaw(g, t))
Slope(g, t) == TLCEval(MMul(Cross(g, t), TLCEval(MInv(TLCEval(Cov(g, t))))))
Velocity(g) == VSub(g.m1, g.m0)
Drift(g, t, x) == VAdd(Velocity(g), MVec(Slope(g, t), VSub(x, Mean(g, t))))
\* time derivative of the covariance
CovDot(g, t) ==
  LET r == RSub(ROne, t)  k == RSub(r, t) IN
  MAdd(MSub(MScale(RMul(R(2), t), g.C1), MScale(RMul(R(2), r), g.C0)),
       MScale(k, MAdd(MAdd(g.C, MT(g.C)), MScale(g.s2, MId(Len(g.C0))))))
Flows(g, t) == LET A == Slope(g, t)  S == TLCEval(Cov(g, t)) IN
               CovDot(g, t) = MAdd(MAdd(MMul(A, S), MMul(S, MT(A))), MScale(g.s2, MId(Len(g.C0))))
Gradient(g, t) == MSym(Slope(g, t))
\* the bridge run backwards is the bridge of the swapped ends
Swap(g) == [g EXCEPT !.m0 = g.m1, !.m1 = g.m0, !.C0 = g.C1, !.C1 = g.C0, !.C = MT(g.C)]
Reversible(g, t) == /\ Cov(Swap(g), RSub(ROne, t)) = Cov(g, t)
                    /\ Mean(Swap(g), RSub(ROne, t)) = Mean(g, t)
                    \* Nelson: forward plus backward drift slope is -sig^2 inv(Cov)
                    /\ MAdd(Slope(g, t), Slope(Swap(g), RSub(ROne, t))) = MScale(RNeg(g.s2), MInv(Cov(g, t)))

\* --- the code's outputs
GInit(c) == [n |-> 0]
Small == 24
ZeroM(M, n, tol) == Len(M) = n /\ \A i \in 1..n : Len(M[i]) = n /\ \A j \in 1..n : Close(M[i][j], RZero, tol)
GClauses(c, s, e) ==
  CASE e.e = "at" ->       \* exact instances
         LET g == c.g IN
         << <<"the instance is a Schroedinger bridge", Coupling(g) /\ Proper(g)>>,
            <<"marginal mean", CloseSeq(e.mean, Mean(g, e.t), 8)>>,
            <<"marginal covariance", CloseMat(e.cov, Cov(g, e.t), Small)>>,
            <<"the drift at the mean is the velocity of the mean", CloseSeq(e.b0, Velocity(g), 8)>>,
            <<"linear part of the drift", CloseMat(e.A, Slope(g, e.t), Small)>>,
            <<"drift at a general point", Len(e.b) = Len(e.x) /\ \A k \in 1..Len(e.b) : CloseSeq(e.b[k], Drift(g, e.t, e.x[k]), 4 * Small)>> >>
    [] e.e = "real" ->     \* real instances: quantised residuals, in units of the largest term
         << <<"marginal mean at the end points", CloseSeq(e.m0, [i \in 1..c.d |-> RZero], 8) /\ CloseSeq(e.m1, [i \in 1..c.d |-> RZero], 8)>>,
            <<"marginal covariance at the end points", ZeroM(e.c0, c.d, 8) /\ ZeroM(e.c1, c.d, 8)>>,
            <<"symmetric covariance", ZeroM(e.asym, c.d, 4)>>,
            <<"the drift at the mean is the velocity of the mean", CloseSeq(e.vel, [i \in 1..c.d |-> RZero], 12)>>,
            <<"the drift is affine", CloseSeq(e.affine, [i \in 1..c.d |-> RZero], 60)>>,
            <<"the drift generates the covariance flow", ZeroM(e.flow, c.d, 60)>>,
            <<"the drift is a gradient", ZeroM(e.curl, c.d, 60)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
GStep(c, s, e) == [n |-> s.n + 1]
GEnd(c, s) == << >>
================================================================================
