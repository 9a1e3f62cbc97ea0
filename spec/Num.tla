---------------------------------- MODULE Num ----------------------------------
(* Observed numbers against exact ones.  An observation <<q, B>> stands for the value
   q * 2^-B rounded to q; q = Huge (or beyond) stands for something that is no number. *)
EXTENDS Rat
Huge == 1073741824
RECURSIVE TwoPow(_)
TwoPow(k) == IF k <= 0 THEN 1 ELSE 2 * TwoPow(k - 1)
\* 2^k as a rational, for integer k of either sign
RTwo(k) == IF k >= 0 THEN R(TwoPow(k)) ELSE <<1, TwoPow(-k)>>
RInt(a) == a[2] = 1

RECURSIVE Dbl(_, _, _, _)
Dbl(n, r, d, k) == IF k = 0 THEN n
                   ELSE IF n >= 67108864 THEN 134217728
                   ELSE IF 2 * r >= d THEN Dbl(2 * n + 1, 2 * r - d, d, k - 1) ELSE Dbl(2 * n, 2 * r, d, k - 1)
\* floor(|a| * 2^B), or something larger than any observation
FixAbs(a, B) == LET n == Abs(a[1]) \div a[2]  r == Abs(a[1]) % a[2] IN
                IF B >= 0 THEN Dbl(n, r, a[2], B) ELSE n \div TwoPow(-B)
Fix(a, B) == IF a[1] >= 0 THEN FixAbs(a, B) ELSE -FixAbs(a, B)
\* the observation o agrees with the exact a up to tol quanta
Close(o, a, tol) == /\ Abs(o[1]) < 67108864
                    /\ Abs(o[1] - Fix(a, o[2])) <= tol + 1
\* entry by entry
CloseSeq(os, as, tol) == Len(os) = Len(as) /\ \A i \in 1..Len(os) : Close(os[i], as[i], tol)
CloseMat(om, am, tol) == Len(om) = Len(am) /\ \A i \in 1..Len(om) : CloseSeq(om[i], am[i], tol)

\* vectors and matrices of rationals (sequences of rows)
RDot(u, v) == RSumSeq([k \in 1..Len(u) |-> RMul(u[k], v[k])])
MCol(A, j) == [i \in 1..Len(A) |-> A[i][j]]
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> RDot(A[i], MCol(B, j))]]
MAdd(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> RAdd(A[i][j], B[i][j])]]
MSub(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> RSub(A[i][j], B[i][j])]]
MScale(a, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> RMul(a, A[i][j])]]
MT(A) == [j \in 1..Len(A[1]) |-> MCol(A, j)]
MId(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN ROne ELSE RZero]]
MZero(n) == [i \in 1..n |-> [j \in 1..n |-> RZero]]
MVec(A, x) == [i \in 1..Len(A) |-> RDot(A[i], x)]
VAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(a, u) == [i \in 1..Len(u) |-> RMul(a, u[i])]
MTrace(A) == RSumSeq([i \in 1..Len(A) |-> A[i][i]])
MSym(A) == A = MT(A)
\* determinant and inverse for sizes one, two and three
MDet(A) == CASE Len(A) = 1 -> A[1][1]
             [] Len(A) = 2 -> RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))
             [] OTHER -> LET m(i, j, k, l) == RSub(RMul(A[2][i], A[3][j]), RMul(A[2][k], A[3][l])) IN
                         RAdd(RSub(RMul(A[1][1], m(2, 3, 3, 2)), RMul(A[1][2], m(1, 3, 3, 1))), RMul(A[1][3], m(1, 2, 2, 1)))
Minor(A, i, j) == LET n == Len(A)
                      sk(x, y) == IF x < y THEN x ELSE x + 1 IN
                  [a \in 1..(n - 1) |-> [b \in 1..(n - 1) |-> A[sk(a, i)][sk(b, j)]]]
MInv(A) == LET n == Len(A)  d == RInv(MDet(A)) IN
           IF n = 1 THEN << <<d>> >>
           ELSE [i \in 1..n |-> [j \in 1..n |->
                   LET c == MDet(Minor(A, j, i)) IN RMul(d, IF (i + j) % 2 = 0 THEN c ELSE RNeg(c))]]
\* from integers n_ij over one denominator
MOf(m, d) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> Q(m[i][j], d)]]
VOf(v, d) == [i \in 1..Len(v) |-> Q(v[i], d)]
================================================================================
