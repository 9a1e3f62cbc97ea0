----------------------------- MODULE PMCMCTrace -----------------------------
EXTENDS PMCMC, Clauses
VARIABLES tid, l, st
TI(c) == PMInit(c)
TF(c, s, e) == Bad(PMClauses(c, s, e))
TS(c, s, e) == PMStep(c, s, e)
TE(c, s) == Bad(PMEnd(c, s))
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
