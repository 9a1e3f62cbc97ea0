---------------------------- MODULE ResampTrace ----------------------------
(* Executions of the resamplers on larger weight vectors: every ancestor vector
   returned must be one the scheme can produce.  Weights are integers w summing
   to S; indices arrive 0-based. *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
VARIABLES tid, l, st

\* cumulative sums cw[1] = 0, cw[a+1] = w[1] + .. + w[a] come with the trace header,
\* and are themselves checked against w
TI(c) == [n |-> Len(c.w), max |-> CHOOSE m \in {c.w[i] : i \in 1..Len(c.w)} : \A i \in 1..Len(c.w) : c.w[i] <= m]
Count(x, a) == Cardinality({i \in 1..Len(x) : x[i] = a})
CumOK(c) == c.cw[1] = 0 /\ \A a \in 1..Len(c.w) : c.cw[a + 1] = c.cw[a] + c.w[a]

SchemeClauses(c, s, x) ==
  LET n == s.n   S == c.cw[n + 1] IN
  CASE c.scheme = "systematic" ->
         << <<"systematic copies are floor or ceil of n w",
              \A a \in 1..n : LET k == Count(x, a - 1) * S IN
                 k > c.w[a] * n - S /\ k < c.w[a] * n + S>>,
            <<"systematic indices are ordered", \A i \in 1..(n - 1) : x[i] <= x[i + 1]>> >>
    [] c.scheme = "stratified" ->
         << <<"stratified slot i draws in stratum i",
              \A i \in 1..n : /\ c.cw[x[i] + 2] * n >= (i - 1) * S
                              /\ c.cw[x[i] + 1] * n <= i * S>> >>
    [] c.scheme = "killing" /\ c.j = 0 ->
         << <<"slots of maximal weight keep their particle",
              \A i \in 1..n : c.w[i] = s.max => x[i] = i - 1>> >>
    [] OTHER -> <<>>

\* TLC evaluates clause lists eagerly, so the clauses that index by the draw come second
TF(c, s, e) ==
  IF e.e = "raised" THEN <<e.clause>>
  ELSE LET b == Bad(<< <<"header", CumOK(c)>>,
                       <<"as many indices as particles", Len(e.x) = s.n>>,
                       <<"indices in range", \A i \in 1..Len(e.x) : e.x[i] \in 0..(s.n - 1)>> >>)
       IN IF b # <<>> THEN b
          ELSE Bad(<< <<"no particle of weight zero selected (except by the conditioning)",
                        \A i \in 1..s.n : c.w[e.x[i] + 1] > 0 \/ i = c.j>>,
                      <<"conditioned slot has the conditioned ancestor", c.j > 0 => e.x[c.j] = c.i - 1>> >>
                   \o SchemeClauses(c, s, e.x))
TS(c, s, e) == s
TE(c, s) == <<>>
INSTANCE TraceRun WITH TInit <- TI, TFail <- TF, TStep <- TS, TEnd <- TE
=============================================================================
