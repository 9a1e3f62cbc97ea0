------------------------------- MODULE DatasetMC -------------------------------
(* All histories of a small dataset: epochs initialised with any batch size and any
   permutation, batches enumerated in any order, at most MAXE initialisations.  A training
   loop that enumerates every batch of an epoch sees every one of its rows exactly once. *)
EXTENDS Dataset, TLC
CONSTANTS NROWS, MAXE
VARIABLES s, hist, asked, epochs
vars == <<s, hist, asked, epochs>>
c == [n |-> NROWS]
Perms(m) == {p \in [1..m -> 0..(m - 1)] : \A i, j \in 1..m : i # j => p[i] # p[j]}
Chunk(p, B) == [i \in 1..(Len(p) \div B) |-> SubSeq(p, (i - 1) * B + 1, i * B)]
Init == s = DInit(c) /\ hist = <<>> /\ asked = {} /\ epochs = 0
New == /\ epochs < MAXE
       /\ \E B \in 1..NROWS : \E p \in Perms(B * (NROWS \div B)) :
            LET e == [e |-> "init", B |-> B, perm |-> Chunk(p, B)] IN
            /\ Ok(DClauses(c, s, e)) /\ s' = DStep(c, s, e)
       /\ hist' = <<>> /\ asked' = {} /\ epochs' = epochs + 1
Get == /\ s.perm # <<>>
       /\ \E i \in (0..(Len(s.perm) - 1)) \ asked :
            LET e == [e |-> "enum", i |-> i, rows |-> s.perm[i + 1]] IN
            /\ Ok(DClauses(c, s, e)) /\ s' = DStep(c, s, e)
            /\ hist' = hist \o e.rows /\ asked' = asked \cup {i}
       /\ UNCHANGED epochs
Spec == Init /\ [][New \/ Get]_vars
Once == Distinct(hist) /\ s.seen = SetOf(hist)
Whole == (s.perm # <<>> /\ Cardinality(asked) = Len(s.perm)) => SetOf(hist) = 0..(s.B * (NROWS \div s.B) - 1)
Dropped == s.perm # <<>> => NROWS - Len(Flat(s.perm)) \in 0..(s.B - 1)
================================================================================
