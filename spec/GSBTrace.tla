-------------------------------- MODULE GSBTrace --------------------------------
EXTENDS GSB
VARIABLES tid, l, st
TF(c, s, e) == Bad(GClauses(c, s, e))
TE(c, s) == Bad(GEnd(c, s))
INSTANCE TraceRun WITH TInit <- GInit, TFail <- TF, TStep <- GStep, TEnd <- TE
================================================================================
