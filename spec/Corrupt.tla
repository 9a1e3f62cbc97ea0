--------------------------------- MODULE Corrupt ---------------------------------
(* Image corruptions and normalisations, on images of integers.
   An image is a sequence of H rows of W pixels, a pixel is a sequence of C channels.
     paint    zeroes one of sixteen squares of side s: corners at floor(i (H - s) / 3),
              floor(j (W - s) / 3), i, j in 0..3
     down     nearest-neighbour reduction by a factor of four or eight and back:
              n = floor(m / r) samples, sample k from floor((2k + 1) m / 2n),
              pixel i shows sample floor((2i + 1) n / 2m)
     blur     weights exp(-(a^2 + b^2) / v) on a zero-padded k x k window over [-1, 1]^2,
              scaled so that the extremes are 0 and 1 *)
EXTENDS Num, Clauses, FiniteSets, TLC

H(x) == Len(x)
W(x) == Len(x[1])
C(x) == Len(x[1][1])
At3(m, s, i) == ((m - s) * i) \div 3
Corners(h, w, s) == {<<At3(h, s, i), At3(w, s, j)>> : i \in 0..3, j \in 0..3}
Hit(p, s, a, b) == a > p[1] /\ a <= p[1] + s /\ b > p[2] /\ b <= p[2] + s
Painted(x, p, s) == [a \in 1..H(x) |-> [b \in 1..W(x) |-> [k \in 1..C(x) |-> IF Hit(p, s, a, b) THEN 0 ELSE x[a][b][k]]]]

\* position (from 0) shown at position i of m after reduction by r
Src(m, r, i) == LET n == m \div r IN ((2 * (((2 * i + 1) * n) \div (2 * m)) + 1) * m) \div (2 * n)
Down(x, r) == LET h == H(x)  w == W(x) IN
              [a \in 1..h |-> [b \in 1..w |-> x[Src(h, r, a - 1) + 1][Src(w, r, b - 1) + 1]]]

\* squared distance of window position (a, b) from the middle, in units of 1/(k-1)^2
N2(k, a, b) == LET p == 2 * a - (k + 1)  q == 2 * b - (k + 1) IN p * p + q * q
\* the logarithms L[a][b] (units 2^-12) of the weights are proportional to N2, v in [1/10, 5]
LogsOk(k, L) ==
  LET ref == L[1][1]  nr == N2(k, 1, 1) IN
  /\ \A a, b \in 1..k : L[a][b] < 200000 /\ Abs(L[a][b] * nr - ref * N2(k, a, b)) <= 6 * (nr + N2(k, a, b))
  /\ ref >= 1632 /\ ref <= 82000
\* window sum at (a, b) of a one-channel image, weights K in units of 2^-14
WinSum(x, K, k, a, b) ==
  LET r == k \div 2
      S(i, j) == IF a + i - r - 1 \in 1..H(x) /\ b + j - r - 1 \in 1..W(x) THEN K[i][j] * x[a + i - r - 1][b + j - r - 1][1] ELSE 0
      RECURSIVE Row(_, _)  Row(i, j) == IF j = 0 THEN 0 ELSE S(i, j) + Row(i, j - 1)
      RECURSIVE All(_)     All(i) == IF i = 0 THEN 0 ELSE Row(i, k) + All(i - 1) IN All(k)
MinS(S) == CHOOSE z \in S : \A y \in S : z <= y
MaxS(S) == CHOOSE z \in S : \A y \in S : y <= z
Vals(M) == UNION {{M[a][b] : b \in 1..Len(M[1])} : a \in 1..Len(M)}
\* y (units 2^-10) is the image M scaled to [0, 1], M known up to tol
ScaledOk(y, M, tol) ==
  LET V == TLCEval(Vals(M))  lo == TLCEval(MinS(V))  d == TLCEval(MaxS(V)) - lo IN
  /\ d > 0
  /\ \A a \in 1..Len(M), b \in 1..Len(M[1]) :
        Abs(y[a][b]) <= 1025 /\ Abs(y[a][b] * d - (M[a][b] - lo) * 1024) <= 3 * 1024 * tol + 2 * d

Chan(x, k) == [a \in 1..H(x) |-> [b \in 1..W(x) |-> x[a][b][k]]]
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))

XInit(c) == [K |-> <<>>]
XClauses(c, s, e) ==
  CASE e.e = "paint" ->
         << <<"one of the sixteen squares is zeroed and nothing else", \E p \in Corners(H(e.x), W(e.x), c.s) : e.y = Painted(e.x, p, c.s)>> >>
    [] e.e = "down" ->
         << <<"nearest neighbours at a quarter or an eighth of the resolution", \E r \in {4, 8} : e.y = Down(e.x, r)>> >>
    [] e.e = "impulse" ->        \* the response to a single bright pixel
         << <<"a Gaussian window of admissible width", LogsOk(c.k, e.L)>>,
            <<"nothing beyond the window", e.outside>>,
            <<"weights and logarithms belong together", Len(e.K) = c.k>> >>
    [] e.e = "blur" ->
         << <<"a window is known", s.K # <<>> >>,
            <<"the blurred image scaled to [0, 1]",
               LET M == TLCEval([a \in 1..H(e.x) |-> [b \in 1..W(e.x) |-> WinSum(e.x, s.K, c.k, a, b)]]) IN
               ScaledOk(e.y, M, 2 * c.k * c.k)>> >>
    [] e.e = "clip" ->
         << <<"values outside [0, 1] are cut, others kept", Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) :
               Close(e.y[i], RMin(ROne, RMax(RZero, Q(e.x[i], 4))), 2)>> >>
    [] e.e = "norm" ->
         << <<"every channel of every image scaled to [0, 1]", \A k \in 1..C(e.x) : ScaledOk(Chan(e.y, k), Chan(e.x, k), 0)>> >>
    [] e.e = "standardise" ->    \* y in units of 2^-9, by columns
         << <<"every column centred and scaled by its standard deviation",
               Len(e.y) = Len(e.x) /\ \A j \in 1..Len(e.x) :
                 LET x == e.x[j]  y == e.y[j]  n == Len(x)
                     t == SumS(x)  V == n * SumS([i \in 1..n |-> x[i] * x[i]]) - t * t IN
                 Len(y) = n /\ \A i \in 1..n : LET d == n * x[i] - t IN
                   /\ Abs(y[i]) <= 2048
                   /\ (y[i] > 2 => d > 0) /\ (y[i] < -2 => d < 0)
                   /\ Abs(y[i] * y[i] * V - d * d * 262144) <= (4 * Abs(y[i]) + 4) * V>> >>
    [] e.e = "reshape" ->
         << <<"at least two axes, the first kept", e.got = (IF Len(e.shape) = 0 THEN <<1, 1>> ELSE IF Len(e.shape) = 1 THEN <<e.shape[1], 1>> ELSE e.shape)>>,
            <<"the same entries in the same order", e.x = e.y>> >>
    [] e.e = "join" ->           \* entries of x and y along the last axis, or a new axis
         << <<"channels of the first, then of the second",
               IF e.expand THEN /\ e.got = e.shape \o <<2>>
                                /\ e.z = [i \in 1..(2 * Len(e.x)) |-> IF i % 2 = 1 THEN e.x[(i + 1) \div 2] ELSE e.y[i \div 2]]
               ELSE LET n == e.shape[Len(e.shape)] IN
                    /\ e.got = [e.shape EXCEPT ![Len(e.shape)] = 2 * n]
                    /\ e.z = [i \in 1..(2 * Len(e.x)) |->
                               LET q == (i - 1) \div (2 * n)  r == (i - 1) % (2 * n) IN
                               IF r < n THEN e.x[q * n + r + 1] ELSE e.y[q * n + r - n + 1]]>> >>
    [] e.e = "split" -> << <<"unpacking returns the two parts", e.x = e.a /\ e.y = e.b>> >>
    [] e.e = "refuse" -> << <<"unknown corruptions are refused", e.ok>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
XStep(c, s, e) == IF e.e = "impulse" THEN [K |-> e.K] ELSE s
XEnd(c, s) == << >>
================================================================================
