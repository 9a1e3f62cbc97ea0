------------------------------ MODULE AcceptX ------------------------------
(* Law of the decision of a Metropolis step whose log2 ratio is new - old. *)
EXTENDS Dist
VARIABLE i
AccLaw(d) == IF d >= 0 THEN DUnit(1) ELSE [x \in {0, 1} |-> IF x = 1 THEN RPow(Q(1, 2), -d) ELSE RSub(ROne, RPow(Q(1, 2), -d))]
LO(c) == AccLaw(c.new - c.old)
INSTANCE LawExport WITH LawOf <- LO
=============================================================================
