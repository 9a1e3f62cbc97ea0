------------------------------ MODULE LinSDETrace ------------------------------
EXTENDS LinSDE
VARIABLES tid, l, st
TF(c, s, e) == Bad(LClauses(c, s, e))
TE(c, s) == Bad(LEnd(c, s))
INSTANCE TraceRun WITH TInit <- LInit, TFail <- TF, TStep <- LStep, TEnd <- TE
================================================================================
