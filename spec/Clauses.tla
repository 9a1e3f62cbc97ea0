------------------------------ MODULE Clauses ------------------------------
(* An action is given as a list of named conjuncts <<name, condition>>.  Bad is
   the (at most one element long) list of the first conjunct that is false:
   later conjuncts may rely on earlier ones. *)
EXTENDS Integers, Sequences

RECURSIVE Bad(_)
Bad(cl) == IF cl = <<>> THEN <<>>
           ELSE IF cl[1][2] THEN Bad(Tail(cl)) ELSE <<cl[1][1]>>
Ok(cl) == Bad(cl) = <<>>
=============================================================================
