----------------------------- MODULE Resampling -----------------------------
(* Resampling schemes as random functions of a weight vector, defined from their
   geometry on the unit interval, and the laws of the ancestor vector they induce.
   w is a sequence of nonnegative integers with sum S; particle a (1-based) owns
   the interval (C(a-1), C(a)]/S of the cumulative weights.  Ancestor vectors are
   sequences of 1-based indices. *)
EXTENDS Dist

RECURSIVE Sum(_)
Sum(w) == IF w = <<>> THEN 0 ELSE Head(w) + Sum(Tail(w))
Cum(w, a) == Sum(SubSeq(w, 1, a))
MaxOf(w) == CHOOSE m \in {w[i] : i \in 1..Len(w)} : \A i \in 1..Len(w) : w[i] <= m
MinI(a, b) == IF a <= b THEN a ELSE b
MaxI(a, b) == IF a >= b THEN a ELSE b
Count(x, a) == Cardinality({i \in 1..Len(x) : x[i] = a})

\* law of one draw from w
Single(w) == DWeights(w, Sum(w))

\* --- multinomial: n independent draws
Multinomial(w) == DProduct([i \in 1..Len(w) |-> Single(w)])

\* --- stratified: slot i draws uniformly in stratum ((i-1)/n, i/n]
StratumLaw(w, i) ==
  LET n == Len(w)  S == Sum(w)
      len(a) == MaxI(0, MinI(Cum(w, a) * n, i * S) - MaxI(Cum(w, a - 1) * n, (i - 1) * S))
  IN [a \in {b \in 1..n : len(b) > 0} |-> Q(len(a), S)]
Stratified(w) == DProduct([i \in 1..Len(w) |-> StratumLaw(w, i)])

\* --- systematic: slot i takes the point (i - 1 + u)/n for one common uniform u.
\* u in (b, b') between consecutive breakpoints gives a constant vector; in units of
\* 1/S of the stratum the breakpoints are (C(a) * n) mod S.
SystBreaks(w) == {0, Sum(w)} \cup {(Cum(w, a) * Len(w)) % Sum(w) : a \in 1..Len(w)}
SystAt(w, b) ==    \* the vector for u just above b/S
  [i \in 1..Len(w) |-> CHOOSE a \in 1..Len(w) :
       /\ Cum(w, a) * Len(w) > (i - 1) * Sum(w) + b
       /\ Cum(w, a - 1) * Len(w) <= (i - 1) * Sum(w) + b]
Systematic(w) ==
  LET S == Sum(w)
      B == SystBreaks(w)
      starts == {b \in B : b < S}
      nxt(b) == CHOOSE x \in B : x > b /\ \A y \in B : y > b => x <= y
      d == TLCEval([b \in starts |-> Q(nxt(b) - b, S)])
  IN DMap(d, LAMBDA b : SystAt(w, b))

\* --- killing: slot i survives with probability w_i / max w, else is redrawn from w
KillSlot(w, i) ==
  LET m == MaxOf(w)  S == Sum(w)
      p(a) == RAdd(IF a = i THEN Q(w[i], m) ELSE RZero,
                   RMul(Q(m - w[i], m), Q(w[a], S)))
  IN DTrim([a \in 1..Len(w) |-> p(a)])
Killing(w) == DProduct([i \in 1..Len(w) |-> KillSlot(w, i)])

\* cyclic shift of the slots by r places to the right
Roll(x, r) == LET n == Len(x) IN [k \in 1..n |-> x[((k - 1 - r) % n) + 1]]
Shifted(d, n) == DBind(d, LAMBDA x : DMap(DUniform(0..(n - 1)), LAMBDA r : Roll(x, r)))

\* the conditional law given that slot j has ancestor i
Pinned(d, i, j) == DGiven(d, LAMBDA x : x[j] = i)

Law(scheme, w) ==
  CASE scheme = "multinomial" -> Multinomial(w)
    [] scheme = "stratified"  -> Stratified(w)
    [] scheme = "systematic"  -> Systematic(w)
    [] scheme = "killing"     -> Killing(w)
CondLaw(scheme, w, i, j) ==
  CASE scheme = "multinomial" -> Pinned(Multinomial(w), i, j)
    [] scheme = "killing"     -> Pinned(Shifted(Killing(w), Len(w)), i, j)

\* --- properties of a law of ancestor vectors
Normalised(d) == DTotal(d) = ROne
Unbiased(d, w) == \A a \in 1..Len(w) :
                     DMean(d, LAMBDA x : R(Count(x, a))) = Q(Len(w) * w[a], Sum(w))
NoGhost(d, w) == \A x \in DSupport(d) : \A k \in 1..Len(x) : w[x[k]] > 0
FloorCeil(x, w) == \A a \in 1..Len(w) :
                     LET c == Count(x, a) * Sum(w) IN
                     c > w[a] * Len(w) - Sum(w) /\ c < w[a] * Len(w) + Sum(w)
InStratum(x, w) == \A i \in 1..Len(w) :
                     /\ Cum(w, x[i]) * Len(w) >= (i - 1) * Sum(w)
                     /\ Cum(w, x[i] - 1) * Len(w) <= i * Sum(w)
IsSorted(x) == \A i \in 1..(Len(x) - 1) : x[i] <= x[i + 1]
\* slots holding the largest weight keep their own particle
MaxSurvives(x, w) == \A i \in 1..Len(w) : w[i] = MaxOf(w) => x[i] = i
=============================================================================
