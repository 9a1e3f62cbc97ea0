--------------------------------- MODULE GPModel ---------------------------------
(* What the toy experiments hand to the samplers: the Gaussian process regression
   model x ~ N(0, S), y = x + N(0, lam I) noised by a linear SDE dz = a z dt + b dW, or by
   a Gaussian Schroedinger bridge, and its exact time reversal.
   All matrices are fixed point integers, 2^U to the unit; a product has unit 2^-2U.
   A reverse drift A z + off at noise level tau is exact iff, with S_tau the covariance
   at tau of the noised (joint) law,
        (A + a I) S_tau = -b^2 I        (linear SDE)
        (A + A_f) S_tau = -I            (bridge with forward drift A_f, dispersion 1)
   and it reverses the mean's velocity.  A conditional law N(m, C) of u given v has
        G S_vv = S_uv,  C = S_uu - G S_vu,  mean m_u + G (v - m_v). *)
EXTENDS Moments, Clauses, TLC
\* exp(-k/2) in units of 2^-11
Half == <<2048, 1242, 753, 457, 277, 168, 102, 62, 38, 23, 14>>
One(c) == TwoPow(c.U)
Dg(i, j, x) == IF i = j THEN x ELSE 0
Prior(c) == [i \in 1..c.d |-> [j \in 1..c.d |-> Half[Abs(i - j) * (10 \div (c.d - 1)) + 1]]]
Joint(c) == LET P == Prior(c)  d == c.d IN
  [i \in 1..(2 * d) |-> [j \in 1..(2 * d) |->
      P[((i - 1) % d) + 1][((j - 1) % d) + 1] + (IF i = j /\ i > d THEN (2048 * c.lam[1]) \div c.lam[2] ELSE 0)]]
\* noised to squared factor r (units 2^-11): r X + (1 - r) I
Noised(X, r) == [i \in 1..Len(X) |-> [j \in 1..Len(X) |-> (r * X[i][j] + Dg(i, j, (2048 - r) * 2048)) \div 2048]]
\* squared factor and factor at the terminal time
R2T(c) == IF c.sde = "const" THEN 753 ELSE 274
RT(c) == IF c.sde = "const" THEN 1242 ELSE 750
\* b^2 at noise time tau (units 2^-11); the drift is -b^2/2 z
B2(c, tau) == IF c.sde = "lin" THEN 41 + (398 * tau) \div 100 ELSE 2048

Cut(X, rows, cols) == [i \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> X[rows[i]][cols[j]]]]
Up(a, n) == [i \in 1..n |-> a + i]
RECURSIVE ISum(_)
ISum(q) == IF q = <<>> THEN 0 ELSE Head(q) + ISum(Tail(q))
IMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> ISum([k \in 1..Len(B) |-> A[i][k] * B[k][j]])]])
MaxM(A) == CHOOSE z \in {Abs(A[i][j]) : i \in 1..Len(A), j \in 1..Len(A[1])} : \A i \in 1..Len(A) : \A j \in 1..Len(A[1]) : Abs(A[i][j]) <= z
Fits(A, m, n, lim) == Len(A) = m /\ \A i \in 1..m : Len(A[i]) = n /\ \A j \in 1..n : Abs(A[i][j]) <= lim
\* A B = X (X in units 2^-2U): what the rounding of A and B can account for, and 1/500 of the scale
Slack(c, A, B, scale) == Len(B) * (MaxM(A) + MaxM(B)) + (scale \div 500) * One(c) + One(c) * 4
ProdIs(c, A, B, X, scale) ==
  LET P == IMul(A, B)  t == Slack(c, A, B, scale) IN
  \A i \in 1..Len(A) : \A j \in 1..Len(B[1]) : Abs(P[i][j] - X[i][j]) <= t
\* A (scaled) against exact entries, up to tol quanta
Near(A, X, tol) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : Abs(A[i][j] - X[i][j]) <= tol
\* empirical covariance over R0^2 draws, 6.5 standard errors: entries at most 9.2 * max variance / R0
CovNear(c, A, X) == Near(A, X, (MaxM(X) * 10) \div c.R0 + 4 + MaxM(X) \div 512)

Lim == 200000
Stat(c, e) == IF c.kind = "joint" THEN Noised(Joint(c), e.r) ELSE Noised(Prior(c), e.r)
RevExact(c, A, S, b2) ==
  LET n == Len(S)
      M == [i \in 1..n |-> [j \in 1..n |-> A[i][j] - Dg(i, j, b2 \div 2)]]
  IN ProdIs(c, M, S, [i \in 1..n |-> [j \in 1..n |-> -Dg(i, j, b2 * One(c))]], b2)
N(c) == IF c.kind = "joint" THEN 2 * c.d ELSE c.d
Normals(e) == \A i \in 1..Len(e.m) : ZOk(e.m[i].z) /\ InRange(e.m[i].var)
MVSmall(v, tol) == \A i \in 1..Len(v) : Abs(v[i]) <= tol
QInit(c) == [seen |-> {}]
QClauses(c, s, e) ==
  CASE e.e = "opts" -> << <<"the options of the command line reach the sampler", e.got = e.want>> >>
    [] e.e = "grid" ->
         << <<"uniform times from zero to one", e.K >= 1 /\ MVSmall(e.dev, 1)>> >>
    [] e.e = "drift" /\ c.sde # "sb" ->
         << <<"observable drift", Fits(e.A, N(c), N(c), Lim) /\ Len(e.off) = N(c)>>,
            <<"drift of the exact reverse SDE", Fits(e.A, N(c), N(c), Lim) /\ RevExact(c, e.A, Stat(c, e), B2(c, e.tau))>>,
            <<"the drift vanishes at the mean", MVSmall(e.off, 24)>> >>
    [] e.e = "drift" ->
         << <<"observable drift", Fits(e.A, N(c), N(c), Lim) /\ Fits(e.Af, N(c), N(c), Lim) /\ Fits(e.S, N(c), N(c), Lim) /\ Len(e.off) = N(c)>>,
            <<"drift of the exact reverse SDE",
              Fits(e.A, N(c), N(c), Lim) /\ ProdIs(c, [i \in 1..N(c) |-> [j \in 1..N(c) |-> e.A[i][j] + e.Af[i][j]]], e.S,
                     [i \in 1..N(c) |-> [j \in 1..N(c) |-> -Dg(i, j, One(c) * One(c))]], One(c) * 4)>>,
            <<"the drift reverses the velocity of the mean", MVSmall(e.off, 48)>> >>
    [] e.e = "cdrift" ->
         LET S == Noised(e.C, e.r) IN
         << <<"observable drift", Fits(e.A, c.d, c.d, Lim) /\ Fits(e.C, c.d, c.d, Lim) /\ Len(e.off) = c.d /\ Len(e.mu) = c.d>>,
            <<"drift of the exact reverse SDE given y", Fits(e.A, c.d, c.d, Lim) /\ RevExact(c, e.A, S, B2(c, e.tau))>>,
            \* F = sqrt(r) is e.f
            <<"offset of the drift given y",
              LET X == [i \in 1..c.d |-> << (B2(c, e.tau) * ((e.f * e.mu[i]) \div 2048)) >>]
                  O == [i \in 1..c.d |-> <<e.off[i]>>]
              IN ((e.f * e.f) \div 2048) - e.r \in -2..2 /\ ProdIs(c, S, O, X, 4096)>> >>
    [] e.e = "noise" ->
         << <<"noise is standard normal", \A i \in 1..Len(e.m) : Ok(NormalOk(e.m[i], ROne, c.R0))>>,
            <<"noise entries are independent", CorrOk(e.corr, c.R0)>> >>
    [] e.e = "dens" ->
         << <<"a Gaussian density of the step's variance",
              /\ \A i \in 1..Len(e.hd) : Close(e.hd[i], ROne, 2000)
              /\ Close(e.ho, RZero, 2000)>>,
            <<"centred at the step's mean", Close(e.g, RZero, 40000)>>,
            <<"normalised", Close(e.v, RZero, 20000)>> >>
    [] e.e = "ref" ->
         LET S == IF c.sde = "sb" THEN e.S ELSE Noised(Joint(c), R2T(c))
             u == Up(0, c.d)  v == Up(c.d, c.d)
             Suv == Cut(S, u, v)  Svv == Cut(S, v, v)  Suu == Cut(S, u, u)  Svu == Cut(S, v, u)
             n == c.d
             GS == IF Fits(e.G, n, n, Lim) THEN IMul(e.G, Svu) ELSE <<>>
         IN << <<"observable reference", Fits(e.G, n, n, Lim) /\ Fits(e.C, n, n, Lim) /\ Len(e.mean) = n>>,
               <<"reference mean regresses on the terminal v",
                 Fits(e.G, n, n, Lim) /\ ProdIs(c, e.G, Svv, [i \in 1..n |-> [j \in 1..n |-> Suv[i][j] * One(c)]], MaxM(S))>>,
               <<"reference covariance is that of u given v",
                 GS # <<>> /\ Fits(e.C, n, n, Lim) /\ CovNear(c, e.C, [i \in 1..n |-> [j \in 1..n |-> Suu[i][j] - GS[i][j] \div One(c)]])>>,
               <<"reference mean", Fits(e.C, n, n, Lim) /\ \A i \in 1..n : Abs(e.mean[i] - e.exp[i]) <= ((7 * One(c)) \div c.R0) * (1 + (MaxM(e.C) \div One(c))) + 16>> >>
    [] e.e = "fwd" ->
         << <<"forward path starts at the given state", e.first>>,
            <<"u and v parts do not mix in the forward noising", Abs(e.cross) <= 8>>,
            <<"forward factor at the end", \A i \in 1..Len(e.f) : Abs(e.f[i] - RT(c)) <= 8>> >>
    [] e.e = "saved" ->
         LET P == Prior(c)  d == c.d
             PL == [i \in 1..d |-> [j \in 1..d |-> P[i][j] + Dg(i, j, (2048 * c.lam[1]) \div c.lam[2])]]
         IN << <<"observable posterior", Fits(e.C, d, d, Lim) /\ Len(e.mu) = d /\ Len(e.y) = d>>,
               <<"saved covariance is the posterior's",
                 Fits(e.C, d, d, Lim) /\ ProdIs([c EXCEPT !.U = 11], e.C, PL, [i \in 1..d |-> [j \in 1..d |-> P[i][j] * ((2048 * c.lam[1]) \div c.lam[2])]], 2048)>>,
               <<"saved mean is the posterior's",
                 Fits(e.C, d, d, Lim) /\ ProdIs([c EXCEPT !.U = 11], e.C, [i \in 1..d |-> <<e.y[i]>>], [i \in 1..d |-> <<e.mu[i] * ((2048 * c.lam[1]) \div c.lam[2])>>], 4096)>> >>
    [] e.e = "samples" ->
         LET X == Noised(e.C, R2T(c)) IN
         << <<"initial draws have the terminal covariance given y", Fits(e.S, c.d, c.d, Lim) /\ CovNear(c, e.S, X)>>,
            <<"initial draws have the terminal mean given y",
              \A i \in 1..c.d : Abs(e.mean[i] - (RT(c) * e.mu[i]) \div 2048) <= (7 * 2048) \div c.R0 + 16>> >>
    [] e.e = "starts" ->
         << <<"bridges start from the stated law", Fits(e.S, c.d, c.d, Lim) /\ CovNear(c, e.S, e.C)
              /\ \A i \in 1..c.d : Abs(e.mean[i] - e.mu[i]) <= (7 * One(c)) \div c.R0 + 16>>,
            <<"bridges start at the observation", e.y <= 4>> >>
    \* the stand-in of the filter returns n labelled particles; N samples
    [] e.e = "pick" ->
         LET W == ISum(e.w) IN
         << <<"a sample is a particle drawn with its weight",
              /\ Len(e.counts) = e.n
              /\ ISum(e.counts) = e.N
              /\ \A i \in 1..e.n : (e.counts[i] * W - e.N * e.w[i]) * (e.counts[i] * W - e.N * e.w[i]) <= 42 * e.N * e.w[i] * (W - e.w[i])>>,
            <<"every sample has fresh randomness", e.keys * 100 >= e.N * 99>>,
            <<"the sampler conditions on the observation", e.dev <= 4>> >>
    [] e.e = "forward" ->
         << <<"forward simulations follow the bridge's SDE", e.n >= 1 /\ e.dim /\ e.sde <= 16>>,
            <<"forward path starts at the given state", e.start <= 4>> >>
    [] e.e = "pathend" -> << <<"the filter runs along the reversed path", Abs(e.dev) <= 64>> >>
    \* the stand-in of the kernel returns a state holding the label of x0 plus 1, and the first
    \* labels of the other parts of the state it was given, to which it adds 10 and 1
    [] e.e = "chain" ->
         << <<"the chain passes on the whole state",
              \A k \in 1..Len(e.steps) : \A i \in 1..Len(e.steps[k]) :
                 \A j \in 1..3 : Abs(e.steps[k][i][j] - 65536 * <<1, 10, 1>>[j]) <= 64>>,
            <<"every sweep and chain has fresh randomness", e.keys + 1 >= e.rows>>,
            <<"the sampler conditions on the observation", e.dev <= 4>>,
            <<"the chain starts from a consistent state",
              e.kernel = "pmcmc" => \A k \in 1..Len(e.first) : Abs(e.first[k][2] - e.first[k][3]) <= 64>> >>   \* evidence of this path
    [] e.e = "init" ->
         << <<"initial draws have the terminal covariance", Fits(e.S, c.d, c.d, Lim) /\ CovNear(c, e.S, Noised(Prior(c), R2T(c)))>>,
            <<"initial draws are centred", \A i \in 1..c.d : Abs(e.mean[i]) <= (7 * 2048) \div c.R0 + 16>> >>
    [] e.e = "twist" ->
         << <<"twisting density is that of y given one more drift step", Fits(e.A, c.d, c.d, Lim) /\ RevExact(c, e.A, Stat(c, e), B2(c, e.tau))
              /\ MVSmall(e.off, 24)>>,
            <<"twisting variance is the observation's", \A i \in 1..Len(e.h) : Close(e.h[i], <<c.lam[2], c.lam[1]>>, 2000)>>,
            <<"twisting density is normalised", Close(e.v, RZero, 20000)>> >>
    [] e.e = "prop" ->
         << <<"proposal drift adds b^2 times the gradient of the twisting density",
              Len(e.p) = Len(e.g) /\ \A i \in 1..Len(e.p) : Abs(e.p[i]) < Lim /\ Abs(e.g[i]) < Lim /\
                   Abs(e.p[i] - (B2(c, e.tau) * e.g[i]) \div 2048) <= 24 + Abs(e.p[i]) \div 100>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
QStep(c, s, e) == [s EXCEPT !.seen = @ \cup {e.e}]
QEnd(c, s) == << <<"everything the samplers were given was observed", \A x \in {c.need[i] : i \in 1..Len(c.need)} : x \in s.seen>> >>
================================================================================
