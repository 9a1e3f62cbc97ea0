---------------------------------- MODULE EMMC ----------------------------------
(* The integrator as a state machine: one action per substep, over every grid of two
   intervals on small times, with every number of substeps. *)
EXTENDS EM, TLC
CONSTANTS TIMES, NMAX
VARIABLES c, k, s, x, seen
vars == <<c, k, s, x, seen>>
Cfg(g, n) == [kind |-> "em", ts |-> [i \in 1..3 |-> R(g[i])], n |-> n, repl |-> FALSE, path |-> TRUE, x0 |-> <<ROne>>, h |-> RZero, tgt |-> <<RZero>>,
              ticks |-> <<>>, a |-> <<>>, b |-> <<>>, g |-> <<>>, sa |-> <<>>, sb |-> <<>>]
Init == /\ \E g \in [1..3 -> TIMES], n \in 1..NMAX : c = Cfg(g, n)
        /\ k = 1 /\ s = 0 /\ x = RZero /\ seen = <<>>
\* x: signed distance travelled
Next == /\ k <= 2
        /\ seen' = Append(seen, EMTime(c, k, s))
        /\ x' = RAdd(x, EMDt(c, k))
        /\ IF s + 1 = c.n THEN k' = k + 1 /\ s' = 0 ELSE k' = k /\ s' = s + 1
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Lo(a, b) == IF RLt(a, b) THEN a ELSE b
\* every substep starts in its own interval, before its end unless the interval is empty
Inside == \A i \in 1..Len(seen) : LET j == ((i - 1) \div c.n) + 1  a == c.ts[j]  b == c.ts[j + 1] IN
            IF a = b THEN seen[i] = a
            ELSE RLt(RAbs(RSub(seen[i], a)), RAbs(RSub(b, a))) /\ RMul(RSub(seen[i], a), RSub(b, a))[1] >= 0
\* the substeps of an interval are equally spaced and the last one ends at the next grid time
Spacing == \A i \in 1..Len(seen) : LET j == ((i - 1) \div c.n) + 1 IN
             RAbs(RSub(IF i % c.n = 0 THEN c.ts[j + 1] ELSE EMTime(c, j, i % c.n), seen[i])) = EMDt(c, j)
Travelled == k = 3 => x = RAdd(RAbs(RSub(c.ts[2], c.ts[1])), RAbs(RSub(c.ts[3], c.ts[2])))
Count == Len(seen) = (k - 1) * c.n + s
================================================================================
