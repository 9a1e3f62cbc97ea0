------------------------------ MODULE FwdPathTrace ------------------------------
EXTENDS FwdPath
VARIABLES tid, l, st
TF(c, s, e) == Bad(FClauses(c, s, e))
TE(c, s) == Bad(FEnd(c, s))
INSTANCE TraceRun WITH TInit <- FInit, TFail <- TF, TStep <- FStep, TEnd <- TE
================================================================================
