------------------------------ MODULE TrainingTrace ------------------------------
EXTENDS Training
VARIABLES tid, l, st
TF(c, s, e) == Bad(Clause(c, s, e))
TE(c, s) == Bad(TrEnd(c, s))
INSTANCE TraceRun WITH TInit <- TrInit, TFail <- TF, TStep <- TrStep, TEnd <- TE
================================================================================
