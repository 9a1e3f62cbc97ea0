------------------------------ MODULE CrescentTrace ------------------------------
EXTENDS Crescent
VARIABLES tid, l, st
TF(c, s, e) == Bad(CClauses(c, s, e))
TE(c, s) == Bad(CEnd(c, s))
INSTANCE TraceRun WITH TInit <- CInit, TFail <- TF, TStep <- CStep, TEnd <- TE
================================================================================
