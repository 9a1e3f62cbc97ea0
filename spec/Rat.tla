-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on pairs <<num, den>>, den > 0, in lowest terms.
   TLC integers are 32 bit and TLC reports overflow as an error, so results
   are either exact or no result at all. *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Norm(n, d) == LET g == Gcd(Abs(n), Abs(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
\* careful: TLA+ \div floors, and g divides both, so the quotients are exact

R(n) == <<n, 1>>
Q(n, d) == Norm(n, d)
RZero == <<0, 1>>
ROne == <<1, 1>>

RAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == Gcd(Abs(a[1]), b[2])
                  g2 == Gcd(Abs(b[1]), a[2])
                  h1 == IF g1 = 0 THEN 1 ELSE g1
                  h2 == IF g2 = 0 THEN 1 ELSE g2
              IN IF a[1] = 0 \/ b[1] = 0 THEN RZero
                 ELSE <<(a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
REq(a, b) == a = b
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RAbs(a) == <<Abs(a[1]), a[2]>>

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN ROne ELSE IF k < 0 THEN RInv(RPow(a, -k)) ELSE RMul(a, RPow(a, k - 1))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

RECURSIVE RProdSeq(_)
RProdSeq(s) == IF s = <<>> THEN ROne ELSE RMul(Head(s), RProdSeq(Tail(s)))

\* sum and product of f(x) over a finite set
RSumSet(S, f(_)) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN RZero
               ELSE LET x == CHOOSE y \in T : TRUE IN RAdd(f(x), go(T \ {x}))
  IN go(S)
RProdSet(S, f(_)) ==
  LET RECURSIVE go(_)
      go(T) == IF T = {} THEN ROne
               ELSE LET x == CHOOSE y \in T : TRUE IN RMul(f(x), go(T \ {x}))
  IN go(S)

\* Does the quantised observation q (an integer, the observed value times scale)
\* agree with the exact rational a up to tol quanta?
QClose(q, a, scale, tol) ==
    LET n == a[1] \div a[2]                      \* integer part (floor)
        r == a[1] - n * a[2]                     \* 0 <= r < den
    IN  Abs((q - n * scale) * 1 - ((r * scale) \div a[2])) <= tol + 1
=============================================================================
