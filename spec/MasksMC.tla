-------------------------------- MODULE MasksMC --------------------------------
(* Every mask of every small image satisfies the geometry, hides what it should, and
   Put undoes Take; masks are built position by position the way a generator does. *)
EXTENDS Masks, TLC
CONSTANTS HMAX, WMAX
VARIABLES c, m
vars == <<c, m>>
Sorted(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE <<MinOf(T)>> \o go(T \ {MinOf(T)}) IN go(S)
Cfgs == {[H |-> h, W |-> w, C |-> 2, s |-> s, task |-> t, random |-> TRUE, n |-> 1] :
           h \in 1..HMAX, w \in 1..WMAX, s \in 1..HMAX, t \in {"inpaint", "supr"}}
Good(d) == IF d.task = "inpaint" THEN d.s <= d.H /\ d.s <= d.W ELSE d.H % d.s = 0 /\ d.W % d.s = 0
Squares(d) == {{(r + a) * d.W + q + b : a \in 0..(d.s - 1), b \in 0..(d.s - 1)} : r \in 0..(d.H - d.s), q \in 0..(d.W - d.s)}
Picks(d) == LET Sel == [Blocks(d) -> (0..(d.s - 1)) \X (0..(d.s - 1))] IN
            {{(b[1] * d.s + f[b][1]) * d.W + b[2] * d.s + f[b][2] : b \in Blocks(d)} : f \in Sel}
Of(d, U) == [unobs |-> Sorted(U), obs |-> Sorted(Pixels(d) \ U)]
Init == c \in {d \in Cfgs : Good(d)} /\ m = [unobs |-> <<>>, obs |-> Sorted(Pixels(c))]
Gen == /\ Len(m.unobs) = 0
       /\ IF c.task = "inpaint" THEN \E U \in Squares(c) : m' = Of(c, U)
          ELSE \E P \in Picks(c) : m' = Of(c, Pixels(c) \ P)
       /\ m'.unobs # <<>>
       /\ UNCHANGED c
Spec == Init /\ [][Gen]_vars
IsMask == m.unobs # <<>> => Ok(Partition(c, m) \o Geometry(c, m))
Count == m.unobs # <<>> => Len(m.unobs) = IF c.task = "inpaint" THEN c.s * c.s ELSE (c.H * c.W * (c.s * c.s - 1)) \div (c.s * c.s)
Inverse == LET I == CodeImg(c, 3) IN Put(Take(I, m.unobs), Take(I, m.obs), m, c.H * c.W) = I
================================================================================
