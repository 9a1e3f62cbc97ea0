------------------------------- MODULE LTITrace -------------------------------
EXTENDS LTI
VARIABLES tid, l, st
TF(c, s, e) == Bad(LTClauses(c, s, e))
TE(c, s) == <<>>
INSTANCE TraceRun WITH TInit <- TInit0, TFail <- TF, TStep <- LTStep, TEnd <- TE
================================================================================
