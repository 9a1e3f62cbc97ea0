---------------------------- MODULE ScoreLossTrace ----------------------------
EXTENDS ScoreLoss
VARIABLES tid, l, st
TF(c, s, e) == Bad(SLClauses(c, s, e))
TE(c, s) == Bad(SLEnd(c, s))
INSTANCE TraceRun WITH TInit <- SLInit, TFail <- TF, TStep <- SLStep, TEnd <- TE
================================================================================
