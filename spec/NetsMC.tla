-------------------------------- MODULE NetsMC --------------------------------
(* All small network configurations: the machine reaches the end exactly for admissible
   sizes, restores the resolution, empties the stack and pops what it pushed last; depth to
   space is a bijection; the fixed point sines are those of a rotation. *)
EXTENDS Nets
CONSTANTS HMAX, LMAX, MMAX
VARIABLES c, s
vars == <<c, s>>
Seqs == UNION {[1..n -> 1..MMAX] : n \in 1..LMAX}
Init == /\ \E h, w \in 1..HMAX, m \in Seqs, d \in 1..2, i \in 1..2, g \in 1..2 :
             c = [h |-> h, w |-> w, mults |-> m, dim |-> d, init |-> i, out |-> 3, groups |-> g]
        /\ s = Start(c)
Step == Enabled(c, s) /\ s' = Next1(c, s) /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
StuckIff == ~Enabled(c, s) => ((s.ph = "done") <=> AdmSize(c))
Restores == s.ph = "done" => s.h = c.h /\ s.w = c.w /\ s.st = <<>> /\ s.ch = c.out
\* channels after joining with what is popped: the level's own and those of the level above
Joins == s.ph = "up" /\ CanUp(c, s) => s.ch = Ch(c, s.i) /\ Top(s)[3] = Ch(c, s.i - 1) /\ Top([s EXCEPT !.st = Pop(@)])[3] = Ch(c, s.i - 1)
LastJoin == s.ph = "final" /\ Fits(s) => s.ch = c.init /\ Top(s)[3] = c.init
Groups == s.ph = "done" => (AdmGroups(c) <=> \A i \in 1..Len(s.blocks) : Div(c.groups, s.blocks[i]))
Depth == Len(s.st) <= 2 * Lev(c) + 1
\* depth to space
ShufCfg == {[b |-> b, h |-> h, w |-> w, s |-> q, k |-> q * q * k] : b \in 1..2, h \in 1..2, w \in 1..3, q \in 1..3, k \in 1..2}
ASSUME \A d \in ShufCfg : LET C == d.k \div (d.s * d.s)
                              I == {<<b, y, x, k>> : b \in 0..(d.b - 1), y \in 0..(d.h * d.s - 1), x \in 0..(d.w * d.s - 1), k \in 0..(C - 1)} IN
         {Shuffled(d, i[1], i[2], i[3], i[4]) : i \in I} = 0..(d.b * d.h * d.w * d.k - 1)
ASSUME \A x \in {-16384, -12000, -5000, -77, 0, 1, 900, 8192, 16000, 16384} : Near(FM(FSin(x), FSin(x)) + FM(FCos(x), FCos(x)), U, 8)
ASSUME Near(FSin(16384), 13787, 4) /\ Near(FCos(16384), 8852, 4) /\ Near(FSin(-8192), -7855, 4) /\ Near(FCos(8192), 14378, 4)
================================================================================
