---------------------------- MODULE SmootherTrace ----------------------------
EXTENDS Smoother, Clauses
VARIABLES tid, l, st
Last(c) == {c.F[c.K + 1][i] : i \in 1..Len(c.F[c.K + 1])}
TI(c) == [sel |-> SMInit, done |-> FALSE]
TF(c, s, e) == CASE e.e = "td" -> Bad(SMClauses(c, c.F, Last(c), s.sel, e))
                 [] e.e = "ret" -> Bad(<< <<"every time was visited", Len(s.sel) = c.K>>,
                                          <<"the path of selected states in forward order", SMPath(c, c.F, Last(c), s.sel, e.us)>> >>)
                 [] OTHER -> <<e.clause>>
TS(c, s, e) == IF e.e = "td" THEN [s EXCEPT !.sel = SMStep(@, e)] ELSE [s EXCEPT !.done = TRUE]
TE(c, s) == Bad(<< <<"the smoother returned", s.done>> >>)
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
