---------------------------------- MODULE LTI ----------------------------------
(* dX = A X dt + B dW, B B^T = G:  F(dt) = exp(A dt),  Q(dt) = int_0^dt exp(A u) G exp(A^T u) du.
   Two families in which both are rational:
     nil   A nilpotent
     diag  A = -ln 2 S diag(al) S^-1,  G = ln 2 S G0 S^T,  al_i dt integers *)
EXTENDS Num, Clauses, TLC
Dim(c) == Len(c.G)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
RECURSIVE MPow(_, _)
MPow(A, k) == TLCEval(IF k = 0 THEN MId(Len(A)) ELSE MMul(A, MPow(A, k - 1)))
RECURSIVE MSumSeq(_)
MSumSeq(ms) == IF Len(ms) = 1 THEN TLCEval(ms[1]) ELSE TLCEval(MAdd(ms[1], MSumSeq(Tail(ms))))
Pairs(d) == [m \in 1..(d * d) |-> <<(m - 1) \div d, (m - 1) % d>>]
NilF(A, dt) == MSumSeq([k \in 1..Len(A) |-> MScale(RMul(RPow(dt, k - 1), Q(1, Fact(k - 1))), MPow(A, k - 1))])
NilQ(A, G, dt) ==
  LET d == Len(A)  ps == Pairs(d) IN
  MSumSeq([m \in 1..(d * d) |-> LET j == ps[m][1]  k == ps[m][2] IN
           MScale(RMul(RPow(dt, j + k + 1), Q(1, (j + k + 1) * Fact(j) * Fact(k))), TLCEval(MMul(TLCEval(MMul(MPow(A, j), G)), MT(MPow(A, k)))))])
DiagF(c, dt) == LET d == Dim(c) IN
  MMul(MMul(c.S, [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN RTwo(-RMul(c.al[i], dt)[1]) ELSE RZero]]), MInv(c.S))
DiagQ(c, dt) == LET d == Dim(c) IN
  MMul(MMul(c.S, [i \in 1..d |-> [j \in 1..d |->
     LET r == RAdd(c.al[i], c.al[j]) IN
     RMul(c.G[i][j], IF r[1] = 0 THEN dt ELSE RDiv(RSub(ROne, RTwo(-RMul(r, dt)[1])), r))]]), MT(c.S))
LF(c, dt) == TLCEval(IF c.fam = "nil" THEN NilF(c.A, dt) ELSE DiagF(c, dt))
LQ(c, dt) == TLCEval(IF c.fam = "nil" THEN NilQ(c.A, c.G, dt) ELSE DiagQ(c, dt))

TInit0(c) == [F |-> MId(Dim(c)), Q |-> MZero(Dim(c)), t |-> RZero]
TGo(c, s, dt) == LET F == TLCEval(LF(c, dt)) IN
                 TLCEval([F |-> MMul(F, s.F), t |-> RAdd(s.t, dt),
                          Q |-> MAdd(TLCEval(MMul(TLCEval(MMul(F, s.Q)), MT(F))), LQ(c, dt))])
LTClauses(c, s, e) ==
  CASE e.e = "go" ->
         LET n == TLCEval(TGo(c, s, e.dt)) IN
         << <<"F over the interval", CloseMat(e.F, LF(c, e.dt), 40)>>,
            <<"Q over the interval", CloseMat(e.Q, LQ(c, e.dt), 40)>>,
            <<"F from the start composes", CloseMat(e.F0, n.F, 40)>>,
            <<"Q from the start composes", CloseMat(e.Q0, n.Q, 40)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
LTStep(c, s, e) == IF e.e = "go" THEN TGo(c, s, e.dt) ELSE s
================================================================================
