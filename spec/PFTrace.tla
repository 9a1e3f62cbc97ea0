------------------------------ MODULE PFTrace ------------------------------
EXTENDS ParticleFilter, Clauses
VARIABLES tid, l, st
TI(c) == PFInit(c)
TF(c, s, e) == Bad(PFClauses(c, s, e))
TS(c, s, e) == PFStep(c, s, e)
TE(c, s) == Bad(PFEnd(c, s))
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
