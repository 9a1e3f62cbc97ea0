--------------------------------- MODULE Diverge ---------------------------------
(* Divergences of Gaussians (m0, C0), (m1, C1), rational.  Determinants are powers of two
   times each other (c.klog = log2 det C1 / det C0), so that
        KL(0 || 1) = (tr(inv(C1) C0) - d + |m1 - m0|^2_inv(C1) + ln det C1 / det C0) / 2
   is a rational plus a multiple of ln 2.
   T is the optimal transport map from (0, C0) to (0, C1): symmetric positive definite with
   T C0 T = C1; the squared Wasserstein distance is
        |m0 - m1|^2 + E|X - T X|^2 = |m0 - m1|^2 + tr((I - T) C0 (I - T)). *)
EXTENDS Num, Clauses, TLC

LN2 == 45426        \* 2^16 ln 2
Sq(v) == RDot(v, v)
KL2(c) == LET K == TLCEval(MInv(c.C1))  d == VSub(c.m1, c.m0) IN     \* twice the KL without its logarithm
          RAdd(RSub(MTrace(MMul(K, c.C0)), R(Len(c.m0))), RDot(d, MVec(K, d)))
KLFix(c) == Fix(RMul(<<1, 2>>, KL2(c)), 16) + (c.klog * LN2) \div 2
Pd(M) == MSym(M) /\ RLt(RZero, M[1][1]) /\ RLt(RZero, MDet(M))
             /\ (Len(M) = 3 => RLt(RZero, RSub(RMul(M[1][1], M[2][2]), RMul(M[1][2], M[2][1]))))
Map(c) == Pd(c.T) /\ MMul(c.T, MMul(c.C0, c.T)) = c.C1
W2(c) == LET D == TLCEval(MSub(MId(Len(c.m0)), c.T)) IN
         RAdd(Sq(VSub(c.m0, c.m1)), MTrace(MMul(D, MMul(c.C0, D))))

VInit(c) == [n |-> 0]
Zeros(m, tol) == \A i \in 1..Len(m) : \A j \in 1..Len(m[i]) : Close(m[i][j], RZero, tol)
VClauses(c, s, e) ==
  CASE e.e = "kl" -> << <<"log determinants", MDet(c.C1) = RMul(RTwo(c.klog), MDet(c.C0))>>,
                        <<"the KL divergence of the first from the second", Abs(e.v - KLFix(c)) <= 24 + Abs(KLFix(c)) \div 20000>> >>
    [] e.e = "bures" -> << <<"the instance has an optimal map", Map(c)>>,
                           <<"squared Wasserstein distance", Close(e.v, W2(c), 40)>>,
                           <<"symmetric in the two Gaussians", Close(e.w, W2(c), 40)>> >>
    [] e.e = "same" -> << <<"KL of a Gaussian from itself", Close(e.kl, RZero, 12)>>,
                          <<"distance of a Gaussian to itself", Close(e.b, RZero, 40)>> >>
    [] e.e = "sqrt" -> << <<"the matrix square root", CloseMat(e.v, c.root, 24)>> >>
    [] e.e = "real" ->
         << <<"symmetric square root", Zeros(e.asym, 8)>>,
            <<"squares to its argument", Zeros(e.sq, 40)>>,
            <<"the other method agrees", Zeros(e.other, 40)>>,
            <<"KL is positive off the diagonal", e.kl[1] > 0>>,
            <<"distance is positive off the diagonal", e.b[1] > 0>>,
            <<"distance is symmetric", Close(e.bsym, RZero, 60)>>,
            <<"KL adds up over the two directions", Close(e.jeff, RZero, 60)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
VStep(c, s, e) == [n |-> s.n + 1]
VEnd(c, s) == << >>
================================================================================
