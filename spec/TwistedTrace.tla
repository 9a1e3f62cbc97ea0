---------------------------- MODULE TwistedTrace ----------------------------
EXTENDS Twisted, Clauses
VARIABLES tid, l, st
TI(c) == TWInit(c)
TF(c, s, e) == Bad(TWClauses(c, s, e))
TS(c, s, e) == TWStep(c, s, e)
TE(c, s) == Bad(TWEnd(c, s))
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
