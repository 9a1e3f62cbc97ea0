----------------------------- MODULE ForcedMoveX -----------------------------
(* Exports the law over indices, with the leaving probability as outcome <<>> of a
   second law. *)
EXTENDS ForcedMove
VARIABLE i
LO(c) == IF c.what = "law" THEN FMLaw(c.w, c.k)
         ELSE LET a == FMLeave(c.w, c.k) IN [x \in {1, 0} |-> IF x = 1 THEN a ELSE RSub(ROne, a)]
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
