------------------------------- MODULE DoobTrace -------------------------------
EXTENDS Doob
VARIABLES tid, l, st
TF(c, s, e) == Bad(DoobClauses(c, s, e))
TE(c, s) == Bad(DoobEnd(c, s))
INSTANCE TraceRun WITH TInit <- DoobInit, TFail <- TF, TStep <- DoobStep, TEnd <- TE
================================================================================
