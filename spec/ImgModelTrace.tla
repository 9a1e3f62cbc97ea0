------------------------------ MODULE ImgModelTrace ------------------------------
EXTENDS ImgModel
VARIABLES tid, l, st
TF(c, s, e) == Bad(IClauses(c, s, e))
TE(c, s) == Bad(IEnd(c, s))
INSTANCE TraceRun WITH TInit <- IInit, TFail <- TF, TStep <- IStep, TEnd <- TE
================================================================================
