--------------------------------- MODULE MasksX ---------------------------------
(* The law of the (sorted) observed pixels of a random super-resolution mask. *)
EXTENDS Dist, TLC
VARIABLE i
M == INSTANCE MasksMC WITH HMAX <- 1, WMAX <- 1, c <- 0, m <- 0
LO(d) == LET P == TLCEval({M!Sorted(S) : S \in M!Picks(d)}) IN TLCEval([p \in P |-> Q(1, Cardinality(P))])
INSTANCE LawExport WITH LawOf <- LO
================================================================================
