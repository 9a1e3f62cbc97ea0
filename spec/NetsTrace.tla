------------------------------ MODULE NetsTrace ------------------------------
EXTENDS Nets
VARIABLES tid, l, st
TF(c, s, e) == Bad(VClauses(c, s, e))
TE(c, s) == Bad(VEnd(c, s))
INSTANCE TraceRun WITH TInit <- VInit, TFail <- TF, TStep <- VStep, TEnd <- TE
================================================================================
