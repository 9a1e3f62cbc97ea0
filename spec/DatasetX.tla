-------------------------------- MODULE DatasetX --------------------------------
(* Uniform laws: the ordered batches of an epoch, and ordered random subsets. *)
EXTENDS Rat, FiniteSets, TLC, Dist
VARIABLE i
Arr(n, k) == {p \in [1..k -> 0..(n - 1)] : \A a, b \in 1..k : a # b => p[a] # p[b]}
LO(c) == LET S == Arr(c.n, c.k) IN TLCEval([p \in S |-> Q(1, Cardinality(S))])
INSTANCE LawExport WITH LawOf <- LO
================================================================================
