------------------------------ MODULE PCNTrace ------------------------------
EXTENDS PCN, Clauses
VARIABLES tid, l, st
TI(c) == 0
TF(c, s, e) == IF e.e = "raised" THEN <<e.clause>> ELSE Bad(Append(PCNClauses(e),
  <<"centred at the path sampler's own mean, from the first time on", "mean" \notin DOMAIN e \/ e.mean>>))
TS(c, s, e) == s + 1
TE(c, s) == Bad(<< <<"a proposal was made", s = 1>> >>)
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
