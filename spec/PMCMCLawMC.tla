----------------------------- MODULE PMCMCLawMC -----------------------------
EXTENDS PMCMCLaw
CONSTANTS N, K, SCHEMES
VARIABLES m, scheme
A == <<1, 3>>
B == <<3, 1>>
Vs == IF K = 1 THEN << <<1, 1>>, <<2, 1>> >> ELSE << <<1, 1, 2>>, <<2, 1, 2>>, <<1, 2, 2>> >>
Ms == [q : {IF K = 1 THEN <<1, 3>> ELSE <<1, 2, 1>>}, vs : {Vs}, r : {<<A, B>>, <<A, A>>},
       T : [1..K -> {<<<<A, B>>, <<B, A>>>>}], G : [1..K -> {<<<<A, B>>, <<B, A>>>>, <<<<A, B>>, <<A, A>>>>}]]
Init == m \in Ms /\ scheme \in SCHEMES
Next == UNCHANGED <<m, scheme>>
Spec == Init /\ [][Next]_<<m, scheme>>
Balance == PKBalance(m, N, K, scheme)
Marginal == PKMarginal(m, N, K, scheme)
\* always taking the first slot: exact for killing and for two particles, not for sorted schemes and three
FixedSlot == LET d == TLCEval(PKPropFixed(m, N, K, scheme, 1)) IN PKMarginalOf(m, N, K, d)
=============================================================================
