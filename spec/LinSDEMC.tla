-------------------------------- MODULE LinSDEMC --------------------------------
(* A run of every small SDE through every small grid of times: the transition since the
   start is the direct one, the clock is additive, V is stationary, rates fit the clock. *)
EXTENDS LinSDE
CONSTANTS TIMES, STEPS
VARIABLES c, s, n
Const == [cls : {"const"}, al : {R(1), R(2), R(-1)}, V : {R(1), Q(1, 2), R(3)}, start : {R(0), R(1)}]
Lin == [cls : {"lin"}, bmin : {R(0), R(2), R(4)}, bmax : {R(2), R(6)}, t0 : {R(0), R(1)}, T : {R(2), R(3)}, V : {ROne}, start : {R(0), R(1)}]
Exp == [cls : {"exp"}, al : {R(1), R(2)}, ka : {R(1), R(-1)}, z : {R(0), R(2)}, V : {R(1), Q(3, 2)}, start : {R(0), R(1)}]
OkC(x) == x.cls # "lin" \/ (RInt(RMul(Half, RDiv(RSub(x.bmax, x.bmin), RSub(x.T, x.t0)))) /\ RInt(BLin(x, R(0))))
OkTrans(x, t, u) == LET r == Clock(x, t, u) IN RInt(r) /\ Abs(r[1]) <= 6
Init == c \in {x \in Const \cup Lin \cup Exp : OkC(x)} /\ s = LInit(c) /\ n = 0
Go(t) == /\ OkTrans(c, t, s.t) /\ OkTrans(c, t, c.start)
         /\ s' = LStep(c, s, [e |-> "go", t |-> t])
Next == n < STEPS /\ n' = n + 1 /\ UNCHANGED c /\ \E t \in TIMES : RLe(s.t, R(t)) /\ Go(R(t))
Spec == Init /\ [][Next]_<<c, s, n>>
Composed == s.acc = Trans(c, s.t, c.start)
Stationary == RAdd(RMul(RMul(s.acc[1], s.acc[1]), c.V), s.acc[2]) = c.V
Identity == s.t = c.start => s.acc = Id
\* rates against the clock: trapezoid rule is exact for affine rates; exponentials solve rate' = ka u rate
Rates == CASE c.cls = "const" -> Clock(c, s.t, c.start) = RMul(Rate(c, s.t), RSub(s.t, c.start))
           [] c.cls = "lin" -> Clock(c, s.t, c.start) = RMul(RMul(Half, RSub(s.t, c.start)), RAdd(Rate(c, s.t), Rate(c, c.start)))
           [] c.cls = "exp" -> RSub(Rate(c, s.t), Rate(c, c.start)) = RMul(c.ka, Clock(c, s.t, c.start))
================================================================================
