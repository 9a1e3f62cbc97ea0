------------------------------ MODULE DivergeTrace ------------------------------
EXTENDS Diverge
VARIABLES tid, l, st
TF(c, s, e) == Bad(VClauses(c, s, e))
TE(c, s) == Bad(VEnd(c, s))
INSTANCE TraceRun WITH TInit <- VInit, TFail <- TF, TStep <- VStep, TEnd <- TE
================================================================================
