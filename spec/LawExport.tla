----------------------------- MODULE LawExport -----------------------------
(* One state per requested case; the exact law of each case is printed and
   compared with the implementation by the conformance tests. *)
EXTENDS Dist, Json, IOUtils
CONSTANT LawOf(_)
VARIABLE i
ExCases == TLCGet(8)
Init == TLCSet(8, ndJsonDeserialize(IOEnv.CASES)) /\ i = 0
Next == /\ i < Len(ExCases)
        /\ i' = i + 1
        /\ LET d == TLCEval(LawOf(ExCases[i + 1])) IN
           PrintT("@@" \o ToJson([case |-> i, total |-> DTotal(d), d |-> DExport(d)]))
Spec == Init /\ [][Next]_i
=============================================================================
