------------------------------- MODULE TrainTrace -------------------------------
EXTENDS Train
VARIABLES tid, l, st
TF(c, s, e) == Bad(TrClauses(c, s, e))
TE(c, s) == Bad(TrEnd(c, s))
INSTANCE TraceRun WITH TInit <- TInit0, TFail <- TF, TStep <- TrStep, TEnd <- TE
================================================================================
