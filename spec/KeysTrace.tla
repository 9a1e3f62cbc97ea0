------------------------------ MODULE KeysTrace ------------------------------
EXTENDS Keys
VARIABLES tid, l, st
KTF(c, s, e) == Bad(KClauses(c, s, e))
KTE(c, s) == Bad(KEnd(c, s))
INSTANCE TraceRun WITH TInit <- KInit, TFail <- KTF, TStep <- KStep, TEnd <- KTE
===============================================================================
