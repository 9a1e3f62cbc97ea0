----------------------------- MODULE GibbsTrace -----------------------------
EXTENDS Gibbs, Clauses
VARIABLES tid, l, st
TI(c) == GInit(c)
TF(c, s, e) == Bad(GClauses(c, s, e))
TS(c, s, e) == GStep(c, s, e)
TE(c, s) == Bad(GEnd(c, s))
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
