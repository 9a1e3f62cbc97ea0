--------------------------------- MODULE IPFMC ---------------------------------
(* The loss run on all small instances: the two formulations are one loss (with
   S(x) = x + g dt and f-map y + f dt the discrete loss is the number of steps times the
   continuous one), it is a mean of squares, and it is zero for the parametric drift that
   realises the target. *)
EXTENDS IPF
CONSTANTS GRID, VALS, XS
VARIABLES c, s, d, z
vars == <<c, s, d, z>>
H(a, b, q, e, k) == [a |-> R(a), b |-> R(b), c |-> R(q), e |-> R(e), k |-> R(k)]
Times == {<<0, 1, 2>>, <<2, 1, 0>>, <<0, 2, 3>>, <<1, 1, 3>>, <<3, 0>>, <<0, 1, 0>>}
Mk(ts, sim, par, x) == [kind |-> "cont", exact |-> TRUE, ts |-> [i \in 1..Len(ts) |-> R(ts[i])], sim |-> sim, par |-> par, x0 |-> << <<R(x), R(1 - x)>>, <<R(-1), R(2)>> >>]
Init == /\ \E ts \in {t \in Times : Len(t) <= GRID} : \E a, e \in VALS : \E b, k \in {0, 1} : \E x \in XS :
             c = Mk(ts, H(a, b, 0, e, k), H(k, e, 0, b, a), x)
        /\ s = IInit(c) /\ d = RZero /\ z = RZero
\* the discrete reading of the same step
Disc(x, y, t, u) == LET dt == Dt(t, u)
                        S(v) == VAdd(v, VScale(dt, Apply(c.sim, v, t)))
                        F(v) == VAdd(v, VScale(dt, Apply(c.par, v, u))) IN
                    Sq(VSub(F(y), VSub(VAdd(y, S(x)), S(y))))
\* for a drift g that depends on time only the target is (x - x')/dt = -g(t): realised by f = -g
Step == /\ s.k < K(c)
        /\ s' = Next1(c, s)
        /\ d' = RAdd(d, RSumSeq([i \in 1..Len(s.x) |-> Disc(s.x[i], s'.x[i], c.ts[s.k + 1], c.ts[s.k + 2])]))
        /\ z' = RAdd(z, RSumSeq([i \in 1..Len(s.x) |->
                  LET t == c.ts[s.k + 1]  u == c.ts[s.k + 2]  g0 == [c.sim EXCEPT !.a = RZero, !.b = RZero]
                      y == Move([c EXCEPT !.sim = g0], s.x[i], t, u)
                      f0 == [a |-> RZero, b |-> RZero, c |-> RZero, e |-> RZero, k |-> RNeg(RAdd(RMul(g0.e, t), g0.k))] IN
                  Sq(Mismatch([c EXCEPT !.sim = g0, !.par = f0], s.x[i], y, t, u))]))
        /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
OneLoss == s.err = d
NonNeg == s.err[1] >= 0
Zero == z = RZero
================================================================================
