-------------------------------- MODULE EMTrace --------------------------------
EXTENDS EM
VARIABLES tid, l, st
TF(c, s, e) == Bad(EMClauses(c, s, e))
TE(c, s) == Bad(EMEnd(c, s))
INSTANCE TraceRun WITH TInit <- EMInit, TFail <- TF, TStep <- EMStep, TEnd <- TE
================================================================================
