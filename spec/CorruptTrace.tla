------------------------------- MODULE CorruptTrace -------------------------------
EXTENDS Corrupt
VARIABLES tid, l, st
TF(c, s, e) == Bad(XClauses(c, s, e))
TE(c, s) == Bad(XEnd(c, s))
INSTANCE TraceRun WITH TInit <- XInit, TFail <- TF, TStep <- XStep, TEnd <- TE
================================================================================
