--------------------------------- MODULE GSBMC ---------------------------------
(* The bridge's theory on every exact instance of a small family, in rational
   arithmetic: a root S of C0 and a root D of 4 S C1 S + sig^4 I are enumerated
   (integer matrices, S unimodular), the coupling is
        C = (S D inv(S) - sig^2 I) / 2. *)
EXTENDS GSB
CONSTANTS NROOTS, DMAX, TIMES     \* TIMES: quarters
VARIABLES g, t
vars == <<g, t>>
Pd(M) == RLt(RZero, M[1][1]) /\ RLt(RZero, MDet(M))
Two(a, b, d) == << <<R(a), R(b)>>, <<R(b), R(d)>> >>
One(a) == << <<R(a)>> >>
RootSeq == << <<1, 0, 1>>, <<2, 1, 1>>, <<1, -1, 2>>, <<2, -1, 1>>, <<1, 2, 5>>, <<5, 2, 1>> >>
Root == {Two(RootSeq[i][1], RootSeq[i][2], RootSeq[i][3]) : i \in 1..NROOTS}
Inst(S_, D_, v) ==
  LET n == Len(S_)  Si == TLCEval(MInv(S_))
      X == TLCEval(MSub(MMul(D_, D_), MScale(RMul(v, v), MId(n)))) IN
  [m0 |-> [i \in 1..n |-> R(i - 2)], m1 |-> [i \in 1..n |-> R(2 * i - 1)], s2 |-> v,
   C0 |-> MMul(S_, S_), C1 |-> MScale(<<1, 4>>, MMul(Si, MMul(X, Si))),
   C |-> MScale(<<1, 2>>, MSub(MMul(S_, MMul(D_, Si)), MScale(v, MId(n))))]
DSet == {Two(a, b, d) : a \in 1..DMAX, b \in -2..2, d \in 1..DMAX}
Ins(S, D) == {TLCEval(Inst(S, D, v)) : v \in {v \in {R(1), R(2), <<1, 2>>} : Pd(MSub(MMul(D, D), MScale(RMul(v, v), MId(Len(S)))))}}
Init == /\ \/ \E S \in Root : \E D \in DSet : Pd(D) /\ g \in Ins(S, D)
           \/ \E a \in 1..3 : \E d \in 1..DMAX : g \in Ins(One(a), One(d))
        /\ t = RZero
Tick == t[1] < t[2] /\ \E q \in TIMES : RLt(t, Q(q, 4)) /\ t' = Q(q, 4) /\ UNCHANGED g
Spec == Init /\ [][Tick]_vars
IsBridge == Coupling(g) /\ Proper(g)
Ends == Cov(g, RZero) = g.C0 /\ Cov(g, ROne) = g.C1 /\ Mean(g, RZero) = g.m0 /\ Mean(g, ROne) = g.m1
Positive == MSym(Cov(g, t)) /\ Pd(Cov(g, t))
FlowOk == Flows(g, t)
Grad == Gradient(g, t)
Rev == Reversible(g, t)
================================================================================
