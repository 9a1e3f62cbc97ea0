----------------------------- MODULE ForcedMove -----------------------------
(* The forced-move index update.  w: integer weights with sum S, k: current index
   (1-based).  Propose i # k with probability w_i / (S - w_k), accept with
   probability min(1, (S - w_k) / (S - w_i)), else stay. *)
EXTENDS Resampling

FMAcc(w, k, i) == LET S == Sum(w) IN
  IF w[i] = S THEN ROne ELSE RMin(ROne, Q(S - w[k], S - w[i]))
FMMove(w, k, i) == RMul(Q(w[i], Sum(w) - w[k]), FMAcc(w, k, i))
FMLeave(w, k) == IF w[k] = Sum(w) THEN RZero
                 ELSE RSumSet((1..Len(w)) \ {k}, LAMBDA i : FMMove(w, k, i))
FMLaw(w, k) ==
  IF w[k] = Sum(w) THEN DUnit(k)
  ELSE DTrim([i \in 1..Len(w) |-> IF i = k THEN RSub(ROne, FMLeave(w, k)) ELSE FMMove(w, k, i)])

FMInvariant(w) == \A j \in 1..Len(w) :
   RSumSet({k \in 1..Len(w) : w[k] > 0}, LAMBDA k : RMul(Q(w[k], Sum(w)), DProb(FMLaw(w, k), j))) = Q(w[j], Sum(w))
\* detailed balance holds for this move
FMReversible(w) == \A j, k \in 1..Len(w) :
   w[j] > 0 /\ w[k] > 0 => RMul(R(w[k]), DProb(FMLaw(w, k), j)) = RMul(R(w[j]), DProb(FMLaw(w, j), k))
\* never worse than drawing from w: leaving is at least as likely as under an independent draw
FMPeskun(w) == \A k \in 1..Len(w) : w[k] > 0 => RLe(Q(Sum(w) - w[k], Sum(w)), FMLeave(w, k))
=============================================================================
