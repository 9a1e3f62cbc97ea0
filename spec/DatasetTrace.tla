------------------------------ MODULE DatasetTrace ------------------------------
EXTENDS Dataset
VARIABLES tid, l, st
TF(c, s, e) == Bad(DClauses(c, s, e))
TE(c, s) == Bad(DEnd(c, s))
INSTANCE TraceRun WITH TInit <- DInit, TFail <- TF, TStep <- DStep, TEnd <- TE
================================================================================
