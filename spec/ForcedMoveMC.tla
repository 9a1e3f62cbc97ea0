---------------------------- MODULE ForcedMoveMC ----------------------------
EXTENDS ForcedMove
CONSTANTS NMax, SMax
VARIABLES w
Vecs == UNION {{v \in [1..n -> 0..SMax] : Sum(v) \in 1..SMax} : n \in 1..NMax}
Init == w \in Vecs
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
Inv == FMInvariant(w)
Rev == FMReversible(w)
Pesk == FMPeskun(w)
Norm1 == \A k \in 1..Len(w) : DTotal(FMLaw(w, k)) = ROne
=============================================================================
