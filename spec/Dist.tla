-------------------------------- MODULE Dist --------------------------------
(* Finite probability laws with exact rational probabilities: functions from
   outcomes to Rat.  Used to compute, inside TLC, the exact law of a randomised
   algorithm from its definition. *)
EXTENDS Rat, FiniteSets, TLC

DUnit(x) == [y \in {x} |-> ROne]
DSupport(d) == {x \in DOMAIN d : d[x] # RZero}
DProb(d, x) == IF x \in DOMAIN d THEN d[x] ELSE RZero
DPr(d, P(_)) == RSumSet({x \in DOMAIN d : P(x)}, LAMBDA x : d[x])
DTotal(d) == RSumSet(DOMAIN d, LAMBDA x : d[x])
DTrim(d) == [x \in DSupport(d) |-> d[x]]
DMean(d, f(_)) == RSumSet(DOMAIN d, LAMBDA x : RMul(d[x], f(x)))
\* a law on 1..n given by integer weights
DWeights(w, S) == [x \in {i \in 1..Len(w) : w[i] > 0} |-> Q(w[x], S)]
DUniform(A) == [x \in A |-> Q(1, Cardinality(A))]

\* monadic bind: draw x from d, then y from f(x)
DBind(d, f(_)) ==
  LET D == DSupport(d)
      F == TLCEval([x \in D |-> TLCEval(f(x))])
      O == UNION {DSupport(F[x]) : x \in D}
  IN TLCEval([y \in O |-> RSumSet({x \in D : y \in DOMAIN F[x]}, LAMBDA x : RMul(d[x], F[x][y]))])
\* image
DMap(d, f(_)) ==
  LET D == DSupport(d)
      F == TLCEval([x \in D |-> f(x)])
      O == {F[x] : x \in D}
  IN TLCEval([y \in O |-> RSumSet({x \in D : F[x] = y}, LAMBDA x : d[x])])
\* conditioning
DGiven(d, P(_)) ==
  LET D == {x \in DSupport(d) : P(x)}
      z == RSumSet(D, LAMBDA x : d[x])
  IN TLCEval([x \in D |-> RDiv(d[x], z)])
\* independent coordinates: ds is a sequence of laws, outcomes are sequences
RECURSIVE DProduct(_)
DProduct(ds) ==
  IF ds = <<>> THEN DUnit(<<>>)
  ELSE LET h == Head(ds)  t == DProduct(Tail(ds))
           pairs == DSupport(h) \X DOMAIN t
           O == {<<p[1]>> \o p[2] : p \in pairs}
       IN TLCEval([y \in O |-> RMul(h[y[1]], t[Tail(y)])])

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
\* export: sequence of <<outcome, num, den>>
DExport(d) == LET s == SetSeq(DSupport(d)) IN [i \in 1..Len(s) |-> <<s[i], d[s[i]][1], d[s[i]][2]>>]
=============================================================================
