------------------------------ MODULE GPModelTrace ------------------------------
EXTENDS GPModel
VARIABLES tid, l, st
TF(c, s, e) == Bad(QClauses(c, s, e))
TE(c, s) == Bad(QEnd(c, s))
INSTANCE TraceRun WITH TInit <- QInit, TFail <- TF, TStep <- QStep, TEnd <- TE
================================================================================
