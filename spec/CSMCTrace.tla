----------------------------- MODULE CSMCTrace -----------------------------
EXTENDS CSMC, Clauses
VARIABLES tid, l, st
TI(c) == CSInit(c)
TF(c, s, e) == Bad(CSClauses(c, s, e))
TS(c, s, e) == CSStep(c, s, e)
TE(c, s) == Bad(CSEnd(c, s))
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
