--------------------------------- MODULE TrainMC ---------------------------------
(* The training loop: every iteration makes an optimiser step (here: the parameter moves
   anywhere) and one averaging call with the running count.  The average is the current
   parameter before the start, and afterwards a convex combination of the parameters at the
   averaging times, with geometric weights. *)
EXTENDS Train, TLC
CONSTANTS VALS, LEN, STARTS, EVERYS
VARIABLES k, p, ema, start, every, d, base, picks
vars == <<k, p, ema, start, every, d, base, picks>>
Init == /\ k = 0 /\ p = RZero /\ ema = RZero /\ base = RZero /\ picks = <<>>
        /\ start \in STARTS /\ every \in EVERYS /\ d \in {<<1, 2>>, <<3, 4>>, ROne, RZero}
Iter == /\ k < LEN
        /\ \E x \in VALS : p' = R(x)
        /\ ema' = Ema(<<ema>>, <<p'>>, k, start, every, d)[1]
        /\ base' = IF k < start THEN p' ELSE base
        /\ picks' = IF k >= start /\ k % every = 0 THEN Append(picks, p') ELSE picks
        /\ k' = k + 1 /\ UNCHANGED <<start, every, d>>
Spec == Init /\ [][Iter]_vars
Geometric == LET n == Len(picks) IN
  ema = RAdd(RMul(RPow(d, n), base),
             RMul(RSub(ROne, d), RSumSeq([i \in 1..n |-> RMul(RPow(d, n - i), picks[i])])))
Follows == (k > 0 /\ k <= start) => ema = p
Hull == LET A == {base} \cup {picks[i] : i \in 1..Len(picks)} IN
        (\E x \in A : RLe(x, ema)) /\ (\E x \in A : RLe(ema, x))
================================================================================
