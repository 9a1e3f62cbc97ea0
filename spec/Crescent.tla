-------------------------------- MODULE Crescent --------------------------------
(* phi ~ N(m, cov) in two dimensions, y | phi ~ N(phi_1 / psi + (phi_0^2 + psi^2) / 2, xi).
   All inputs are rational; det(cov) and xi are powers of two, so log densities are a
   rational plus multiples of ln 2 and ln 2 pi, compared in units of 2^-16. *)
EXTENDS Num, Clauses, Moments, TLC

LN2 == 45426        \* 2^16 ln 2
LN2PI == 120449     \* 2^16 ln 2 pi
Emission(c, x) == RAdd(RDiv(x[2], c.psi), RMul(<<1, 2>>, RAdd(RMul(x[1], x[1]), RMul(c.psi, c.psi))))
\* twice the exponents of the densities
QPrior(c, x) == LET d == VSub(x, c.m) IN RDot(d, MVec(c.icov, d))
QLik(c, x, y) == LET d == RSub(y, Emission(c, x)) IN RDiv(RMul(d, d), c.xi)
HalfOf(a) == RMul(<<1, 2>>, a)
\* log densities in units of 2^-16: constants and exponent
LogPrior(c, x) == -LN2PI - (c.kdet * LN2) \div 2 - Fix(HalfOf(QPrior(c, x)), 16)
LogLik(c, x, y) == -(LN2PI \div 2) - (c.kxi * LN2) \div 2 - Fix(HalfOf(QLik(c, x, y)), 16)
\* gradient of the joint log density in (phi, y)
Score(c, x, y) ==
  LET d == RDiv(RSub(y, Emission(c, x)), c.xi)
      p == MVec(c.icov, VSub(x, c.m)) IN
  << RSub(RMul(d, x[1]), p[1]), RSub(RDiv(d, c.psi), p[2]), RNeg(d) >>
Energy(c, x, y) == RNeg(HalfOf(RAdd(QPrior(c, x), QLik(c, x, y))))

\* the trapezoid rule over the grid of quantised values p (rows: second coordinate, gs; columns: first, gf)
W(g, i) == LET n == Len(g) IN IF n = 1 THEN 0 ELSE IF i = 1 THEN g[2] - g[1] ELSE IF i = n THEN g[n] - g[n - 1] ELSE g[i + 1] - g[i - 1]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Trapz(p, gf, gs) == SumTo([i \in 1..Len(gs) |-> W(gs, i) * SumTo([j \in 1..Len(gf) |-> W(gf, j) * p[i][j]], Len(gf))], Len(gs))

CInit(c) == [n |-> 0]
Near(a, b, tol) == Abs(a - b) <= tol + Abs(b) \div 100000
CClauses(c, s, e) ==
  CASE e.e = "dens" ->
         << <<"prior log density", Near(e.prior, LogPrior(c, e.x), 20)>>,
            <<"likelihood log density", Near(e.lik, LogLik(c, e.x, e.y), 20)>>,
            <<"emission", Close(e.mean, Emission(c, e.x), 8)>>,
            <<"score is the gradient of the joint log density", CloseSeq(e.score, Score(c, e.x, e.y), 16)>> >>
    [] e.e = "post" ->       \* ratios to the value at the first grid point asked for
         << <<"one value per grid point", e.p # <<>> >>,
            <<"nowhere negative", \A i \in 1..Len(e.p) : \A j \in 1..Len(e.p[i]) : e.p[i][j] >= 0>>,
            <<"integrates to one over the grid", e.p # <<>> => (
                \* weights are in eighths of an eighth, values in units of 2^-12
                /\ \A i \in 1..Len(e.gs), j \in 1..Len(e.gf) : e.p[i][j] >= 0 /\ e.p[i][j] * W(e.gs, i) * W(e.gf, j) <= 2000000
                /\ LET z == Trapz(e.p, e.gf, e.gs) IN
                      Abs(z - 4096 * 4 * c.unit * c.unit) <= 2 * (e.gf[Len(e.gf)] - e.gf[1]) * (e.gs[Len(e.gs)] - e.gs[1]) + 64)>> >>
    [] e.e = "ratio" ->
         << <<"posterior proportional to prior times likelihood",
              Near(e.d, Fix(RSub(Energy(c, e.x, e.y), Energy(c, e.x0, e.y)), 16), 40)>> >>
    [] e.e = "sample" ->
         << <<"prior variances", \A i \in 1..2 : Ok(NormalOk(e.phi[i], e.wv[i], c.R0))>>,
            <<"prior covariance", CorrOk(e.corr, c.R0)>>,
            <<"measurement noise", Ok(NormalOk(e.noise, c.xi, c.R0))>>,
            <<"noise independent of phi", CorrOk(e.indep, c.R0)>> >>
    [] e.e = "shape" -> << <<"a batch of pairs", e.ok>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
CStep(c, s, e) == [n |-> s.n + 1]
CEnd(c, s) == << >>
================================================================================
