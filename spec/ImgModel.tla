--------------------------------- MODULE ImgModel ---------------------------------
(* What the image restoration experiments hand to the samplers.  An image is split by a
   mask into unobserved pixels u and observed pixels v.  With the network replaced by the
   affine score
       s(x, tau)_j = p1 x_j + p2 [j odd] x_{j-1} + p3 tau + p4 (j mod 7)
   (parameters in sixteenths) the reverse drift of the model at noise time tau is
       b^2/2 x + b^2 s(x, tau)          (diffusion)
       s(x, tau)                        (bridge)
   evaluated on the image put together from u and v.
   Numbers are fixed point, 2^11 to the unit. *)
EXTENDS Moments, Clauses, FiniteSets, TLC
B2(c, tau) == IF c.sde = "const" THEN 2048 ELSE IF c.T = 4 THEN 41 + (249 * tau) \div 100 ELSE 41 + (996 * tau) \div 100
Sc(p, x, xp, odd, tau, j7) == (p[1] * x + (IF odd = 1 THEN p[2] * xp ELSE 0) + p[3] * tau + p[4] * j7 * 2048) \div 16
Dr(c, p, x, xp, odd, tau, j7) ==
  IF c.model = "sb" THEN Sc(p, x, xp, odd, tau, j7)
  ELSE (B2(c, tau) * (x \div 2 + Sc(p, x, xp, odd, tau, j7))) \div 2048
\* a difference of two drifts: no constant part
Df(c, p, x, xp, odd, tau) == LET z == (p[1] * x + (IF odd = 1 THEN p[2] * xp ELSE 0)) \div 16 IN
  IF c.model = "sb" THEN z ELSE (B2(c, tau) * (x \div 2 + z)) \div 2048
P(c) == IF c.model = "sb" THEN c.pbwd ELSE IF c.ema THEN c.pema ELSE c.p
Sane(v) == \A i \in 1..Len(v) : Abs(v[i]) <= 16 * 2048
Rows(r) == \A i \in 1..Len(r) : Sane(r[i])
Is(a, b, tol) == Abs(a - b) <= tol + Abs(b) \div 150

\* --- the conditional score sampler: four Euler steps from N(0, 1), the observed pixels at
\*     the time's marginal given y.  F in units 2^-11 at tau = 2, 3/2, 1, 1/2
F4(c) == IF c.sde = "const" THEN <<753, 967, 1242, 1595>> ELSE <<166, 497, 1088, 1744>>
FM(a, b) == (a * b) \div 2048
\* state of the recursion: mean and variance of an even pixel (m, v), of the odd pixel right of it
\* (n, w), their covariance k, and the variance z and mean o of an odd pixel right of an observed one
CStep(c, p, j7, y, s, k) ==
  LET tau == 4096 - (k - 1) * 1024
      b == B2(c, tau) \div 2                                   \* dt b^2
      a == 2048 + FM(b, 1024 + p[1] * 128)
      g == FM(b, p[2] * 128)
      off(j) == FM(b, (p[3] * tau) \div 16 + p[4] * (j % 7) * 128)
      f == F4(c)[k]
      a2 == FM(a, a)
  IN [m |-> FM(a, s.m) + off(j7), v |-> FM(a2, s.v) + b,
      n |-> FM(a, s.n) + FM(g, s.m2) + off(j7),
      m2 |-> FM(a, s.m2) + off(j7 + 6),                        \* the even pixel left of it
      w |-> FM(a2, s.w) + 2 * FM(FM(a, g), s.k) + FM(FM(g, g), s.v) + b,
      k |-> FM(a2, s.k) + FM(FM(a, g), s.v),
      o |-> FM(a, s.o) + FM(FM(g, f), y) + off(j7),
      z |-> FM(a2, s.z) + FM(FM(g, g), 2048 - FM(f, f)) + b]
CEnd(c, p, j7, y) ==
  LET i == [m |-> 0, v |-> 2048, n |-> 0, m2 |-> 0, w |-> 2048, k |-> 0, o |-> 0, z |-> 2048]
      s1 == TLCEval(CStep(c, p, j7, y, i, 1))
      s2 == TLCEval(CStep(c, p, j7, y, s1, 2))
      s3 == TLCEval(CStep(c, p, j7, y, s2, 3))
  IN TLCEval(CStep(c, p, j7, y, s3, 4))
\* the mean of R^2 draws of variance V: 7 standard errors
MeanNear(obs, m, V, n) == LET d == Abs(obs - m) - 8 IN
  d <= 0 \/ (d < 1000000 \div n /\ ((d * n) \div 32) * ((d * n) \div 32) <= 100 * V)
VarNear(obs, V, n) == Abs(obs - V) <= (V * 10) \div n + 16 + V \div 100

\* linear interpolation of an m x m image at pixel p of an image rate times as fine
Lo(p, rate) == (2 * p + 1 - rate) \div (2 * rate)
Fr(p, rate) == (2 * p + 1 - rate) - Lo(p, rate) * 2 * rate     \* in units of 1 / (2 rate)
Clamp(i, m) == IF i < 0 THEN 0 ELSE IF i > m - 1 THEN m - 1 ELSE i
Interp(y, m, rate, r, q) ==
  LET at(i, j) == y[Clamp(i, m) * m + Clamp(j, m) + 1]
      a == Lo(r, rate)  b == Lo(q, rate)  f == Fr(r, rate)  g == Fr(q, rate)  w == 2 * rate IN
  ((w - f) * ((w - g) * at(a, b) + g * at(a, b + 1)) + f * ((w - g) * at(a + 1, b) + g * at(a + 1, b + 1))) \div (w * w)

IInit(c) == [seen |-> {}]
IClauses(c, s, e) ==
  CASE e.e = "opts" -> << <<"the options of the command line reach the sampler", e.got = e.want>> >>
    [] e.e = "grid" -> << <<"uniform times from zero to the final time", e.K = c.K /\ \A i \in 1..Len(e.dev) : Abs(e.dev[i]) <= 1>> >>
    \* where the labelled unobserved pixels ended up
    [] e.e = "img" ->
         << <<"every unobserved pixel gets its restored value", Len(e.where) = c.nu /\ \A i \in 1..Len(e.where) : e.where[i] \in 0..783>>,
            <<"no two restored values on one pixel", Cardinality({e.where[i] : i \in 1..Len(e.where)}) = Len(e.where)>>,
            <<"the other pixels keep the observed values", e.obs = 0>>,
            <<"the sampler conditions on the observed pixels of this image", e.y = 0>> >>
    [] e.e = "shown" -> << <<"images shown are the true and the masked one", e.true = 0 /\ e.corrupt = 0>> >>
    [] e.e = "same" -> << <<"test image k does not depend on where the run starts", e.dev = 0>> >>
    \* drift of the density (exact): rows <<x, left neighbour, odd, j mod 7, drift>>
    [] e.e = "drift" ->
         << <<"observable drift", Len(e.rows) >= 4 /\ Rows(e.rows)>>,
            <<"mean of the step is that of the reverse model on the whole image",
              Rows(e.rows) /\ \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN Is(r[5], Dr(c, P(c), r[1], r[2], r[3], e.tau, r[4]), 12)>> >>
    [] e.e = "fdrift" ->
         << <<"forward drift is the forward network's",
              Len(e.rows) >= 4 /\ Rows(e.rows) /\ \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN Is(r[5], Sc(c.pfwd, r[1], r[2], r[3], e.tau, r[4]), 12)>>,
            <<"forward simulations start at the given image, over the whole grid", e.start <= 4 /\ e.path>>,
            <<"forward dispersion", Abs(e.b2 - B2(c, e.tau)) <= 8>> >>
    \* differences of two sampled states under one key
    [] e.e = "lin" ->
         << <<"observable drift", Len(e.rows) >= 4 /\ Rows(e.rows)>>,
            <<"the sampler moves by the reverse model's drift",
              Rows(e.rows) /\ \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN Is(r[4], Df(c, P(c), r[1], r[2], r[3], e.tau), 12)>> >>
    \* mean drift at the zero image by j mod 7, within 1/32
    [] e.e = "off" ->
         << <<"the sampler's drift at the zero image",
              Len(e.rows) >= 1 /\ \A i \in 1..Len(e.rows) : Is(e.rows[i][2], Dr(c, P(c), 0, 0, 0, e.tau, e.rows[i][1]), 72)>> >>
    [] e.e = "noise" ->
         << <<"noise of the reverse model", \A i \in 1..Len(e.m) : Ok(NormalOk(e.m[i], IF e.tau >= 0 THEN <<B2(c, e.tau), 2048>> ELSE ROne, e.R0))>>,
            <<"noise entries are independent", CorrOk(e.corr, e.Rc)>> >>
    [] e.e = "dens" ->
         << <<"a Gaussian density of the step's variance", \A i \in 1..Len(e.hd) : Close(e.hd[i], ROne, 2000)>>,
            <<"independent entries", Close(e.ho, RZero, 2000)>>,
            <<"normalised", Close(e.v, RZero, 20000)>> >>
    [] e.e = "fwd" ->
         << <<"forward path starts at the given image", e.start <= 4>>,
            <<"forward factor at the end", \A i \in 1..Len(e.f) : Abs(e.f[i] - (IF c.sde = "const" THEN 753 ELSE 166)) <= 8>> >>
    \* the whole script with the real samplers; a twisted sample replaces the whole image
    [] e.e = "real" ->
         << <<"restored images are finite", e.finite = 0>>,
            <<"the other pixels keep the observed values", e.whole \/ e.obs <= c.nu>>,
            <<"restored images differ", e.chain \/ e.same = 3>> >>
    [] e.e = "chain" ->
         << <<"the chain passes on the whole state", \A i \in 1..Len(e.links) : \A j \in 1..Len(e.links[i]) : e.links[i][j] = 0>>,
            <<"the restored image is the state of the chain", e.img = 0>>,
            <<"every call has fresh randomness", e.keys = e.calls>>,
            <<"one observation and mask for all calls of one image", e.y = 0>> >>
    [] e.e = "start" ->
         << <<"every start was used", e.runs >= 1>>,
            <<"the run starts from the image it is named after",
              CASE e.what = "blank" -> \A i \in 1..Len(e.rows) : e.rows[i][3] = 0
                [] e.what = "interp" -> \A i \in 1..Len(e.rows) : Abs(e.rows[i][3] - Interp(e.y, e.m, e.rate, e.rows[i][1], e.rows[i][2])) <= 4
                [] e.what = "random" -> /\ \A i \in 1..Len(e.rows) : e.rows[i][3] \in 0..2048
                                        /\ MeanOk(e.mean, <<1, 2>>, <<1, 12>>, e.R) /\ MeanOk(e.sq, <<1, 3>>, <<4, 45>>, e.R)
                                        /\ e.distinct = e.runs>>,
            <<"the start is independent of the sampler's randomness", e.again = 0>> >>
    [] e.e = "pick" ->
         LET W == (e.n * (e.n + 1)) \div 2 IN
         << <<"a sample is a particle drawn with its weight",
              Len(e.counts) = e.n /\ \A i \in 1..e.n :
                (e.counts[i] * W - e.N * i) * (e.counts[i] * W - e.N * i) <= 42 * e.N * i * (W - i)>>,
            <<"every sample has fresh randomness", e.keys * 100 >= e.N * 99>> >>
    [] e.e = "csgm" ->
         << <<"law of the restored pixels",
              Sane(e.mean) /\ \A i \in 1..Len(e.bins) :
                LET b == e.bins[i]                 \* <<class, j mod 7, y, R>>
                    z == CEnd(c, P(c), b[2], b[3] * 2048) IN
                CASE b[1] = 0 -> MeanNear(e.mean[i], z.m, z.v, b[4])
                  [] b[1] = 1 -> MeanNear(e.mean[i], z.n, z.w, b[4])
                  [] b[1] = 2 -> MeanNear(e.mean[i], z.o, z.z, b[4])>>,
            <<"spread of the restored pixels",
              LET z == CEnd(c, P(c), 0, 0) IN
              /\ \A i \in 1..Len(e.var) : e.var[i] <= 400 * 2048
              /\ VarNear(e.var[1], z.v, e.R[1]) /\ VarNear(e.var[2], z.w, e.R[2])
              /\ (e.R[3] > 0 => VarNear(e.var[3], z.z, e.R[3]))>>,
            <<"neighbouring restored pixels", Abs(e.cov - CEnd(c, P(c), 0, 0).k) <= (10 * (e.var[1] + e.var[2])) \div (2 * e.R[2]) + 16>> >>
    \* the twisting density: y given one more step of the reverse drift
    [] e.e = "twist" ->
         << <<"twisting density predicts y by one more drift step",
              Rows(e.rows) /\ Len(e.rows) >= 4 /\ \A i \in 1..Len(e.rows) : LET r == e.rows[i] IN
                Is(r[5], r[1] + Dr(c, P(c), r[1], r[2], r[3], e.tau, r[4]) \div 2, 16)>>,
            <<"twisting variance", LET f == F4(c)[e.k] IN \A i \in 1..Len(e.h) : Abs(e.h[i] - ((FM(f, f) * 6) \div 100 + 2048 - FM(f, f))) <= 8>>,
            <<"twisting density is normalised", Close(e.v, RZero, 20000)>> >>
    \* rows <<drift of the proposal minus reverse drift, gradient of the twisting density>>
    [] e.e = "prop" ->
         << <<"proposal drift adds b^2 times the gradient of the twisting density",
              Rows(e.rows) /\ \A i \in 1..Len(e.rows) : Is(e.rows[i][1], (B2(c, e.tau) * e.rows[i][2]) \div 2048, 24)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
IStep(c, s, e) == [s EXCEPT !.seen = @ \cup {e.e}]
IEnd(c, s) == << <<"everything the samplers were given was observed", \A x \in {c.need[i] : i \in 1..Len(c.need)} : x \in s.seen>> >>
================================================================================
