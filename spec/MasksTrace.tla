------------------------------- MODULE MasksTrace -------------------------------
EXTENDS Masks
VARIABLES tid, l, st
TF(c, s, e) == Bad(MClauses(c, s, e))
TE(c, s) == Bad(MEnd(c, s))
INSTANCE TraceRun WITH TInit <- MInit, TFail <- TF, TStep <- MStep, TEnd <- TE
================================================================================
