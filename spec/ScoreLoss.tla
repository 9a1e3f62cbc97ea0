-------------------------------- MODULE ScoreLoss --------------------------------
(* Denoising score matching.  One evaluation of a loss visits training times
   tau_1 < .. < tau_J = T in [t0, T]; at each it evaluates the network once at the
   forward states, and returns
       1/N sum_j Q(tau_j) sum_(samples, entries at tau_j) (network - score)^2
   with score = -(x - F x0)/Q for the transition from t0 and N the number of all
   (time, sample, entry) cells.  The network used here returns that score plus known
   integer errors.  c: the SDE (for exact times), t0, T, J, cells (per time), rand, R0.
   Times are in units of 2^-14 relative to t0. *)
EXTENDS LinSDE, Moments
U14 == 16384
SLInit(c) == [j |-> 0, last |-> 0, acc |-> 0, n |-> 0]
Len14(c) == Fix(RSub(c.T, c.t0), 14)
Uni(c, j) == RAdd(c.t0, RMul(RSub(c.T, c.t0), Q(j, c.J)))
SLClauses(c, s, e) ==
  CASE e.e = "eval" ->
         LET j == s.j + 1  exact == ~c.rand /\ c.rational IN
         << <<"one evaluation per training time", j <= c.J>>,
            <<"parameters handed to the network", e.param>>,
            <<"times lie in [t0, T]", e.t >= 0 /\ e.t <= Len14(c) + 1>>,
            <<"times are sorted", e.t >= s.last - 1>>,
            <<"times end at T", j = c.J => Abs(e.t - Len14(c)) <= 1>>,
            <<"fixed times are equally spaced", ~c.rand => Abs(e.t - Fix(RMul(RSub(c.T, c.t0), Q(j, c.J)), 14)) <= 2>>,
            <<"transition from t0 to this time", exact => /\ Close(e.F, Trans(c, Uni(c, j), c.t0)[1], 24)
                                                         /\ Close(e.Q, Trans(c, Uni(c, j), c.t0)[2], 24)>>,
            <<"states are forward states of their own sample", \A i \in 1..Len(e.f) : Abs(e.f[i][1] - e.F[1]) <= 60 /\ e.f[i][2] = e.F[2]>>,
            <<"forward noise has variance Q", \A i \in 1..Len(e.m) : VarOk(e.m[i].var, ROne, c.R0)>>,
            <<"forward noise is centred", \A i \in 1..Len(e.m) : ZOk(e.m[i].z)>> >>
    [] e.e = "loss" ->
         << <<"all training times visited", s.j = c.J>>,
            <<IF c.kind \in {"ipf", "ipf-score"} THEN "loss is the mean squared error against the one-step target"
              ELSE "loss weighs each squared error with the forward variance of its time",
              /\ Abs(e.v) < 67108864
              /\ s.n > 0 /\ Abs(e.v - s.acc \div s.n) <= 24 + (s.acc \div s.n) \div 500>> >>
    [] e.e = "score" ->
         << <<"the conditional score", Len(e.v) = Len(e.x) /\ \A i \in 1..Len(e.v) :
               LET tr == Trans(c, e.t, e.s) IN Close(e.v[i], RDiv(RSub(RMul(tr[1], e.x0[i]), e.x[i]), tr[2]), 40)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
\* e.q: Q in units of 2^-14 / (largest squared error); e.S: sum of the squared errors of the cells
SLWeight(c, e) == IF c.kind \in {"ipf", "ipf-score"} THEN U14 ELSE e.q
SLStep(c, s, e) == CASE e.e = "eval" -> [j |-> s.j + 1, last |-> e.t, acc |-> s.acc + SLWeight(c, e) * e.S, n |-> s.n + e.cells]
                     [] e.e = "loss" -> [SLInit(c) EXCEPT !.j = 0]
                     [] OTHER -> s
SLEnd(c, s) == << <<"every run returned its loss", s.j = 0>> >>
================================================================================
