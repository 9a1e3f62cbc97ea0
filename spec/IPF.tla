----------------------------------- MODULE IPF -----------------------------------
(* Iterative proportional fitting losses as a run over the times ts: the simulator
   process moves the samples, every step adds the squared mismatch of the parametric
   map, evaluated at the state reached and the time reached, from the regression target.
     cont:  x' = x + g(x, t) dt + sqrt(dt) s(t) z,   dt = |t' - t|
            mismatch  f(x', t') dt - (G(x) - G(x')),  G(y) = y + g(y, t) dt
            loss = mean over steps, samples and entries
     disc:  x' = S(x, t) + sqrt(gamma) z
            mismatch  f(x', t') - (x' + S(x, t) - S(x', t))
            loss = sum over steps of the mean over samples and entries
   A sample is a sequence of rationals.  Maps: entry i of h(x, t) is
        (a + b t) |x_i| + c x_(d+1-i) + e t + k. *)
EXTENDS Num, Clauses, Moments, TLC

Apply(h, x, t) == LET d == Len(x)  al == RAdd(h.a, RMul(h.b, t))  be == RAdd(RMul(h.e, t), h.k) IN
                  [i \in 1..d |-> RAdd(RAdd(RMul(al, RAbs(x[i])), RMul(h.c, x[d + 1 - i])), be)]
Dt(t, u) == RAbs(RSub(u, t))
Move(c, x, t, u) == IF c.kind = "disc" THEN Apply(c.sim, x, t)
                    ELSE VAdd(x, VScale(Dt(t, u), Apply(c.sim, x, t)))
Mismatch(c, x, y, t, u) ==
  IF c.kind = "disc"
  THEN VSub(Apply(c.par, y, u), VSub(VAdd(y, Apply(c.sim, x, t)), Apply(c.sim, y, t)))
  ELSE VSub(VScale(Dt(t, u), Apply(c.par, y, u)), VSub(Move(c, x, t, u), Move(c, y, t, u)))
Sq(v) == RSumSeq([i \in 1..Len(v) |-> RMul(v[i], v[i])])
K(c) == Len(c.ts) - 1
Cells(c) == Len(c.x0) * Len(c.x0[1])
Weight(c) == IF c.kind = "disc" THEN Q(1, Cells(c)) ELSE Q(1, Cells(c) * K(c))

\* noise-free run: state = step, samples, accumulated squares
IInit(c) == [k |-> 0, x |-> IF c.exact THEN c.x0 ELSE <<>>, err |-> RZero, sum |-> 0]
Next1(c, s) == LET t == c.ts[s.k + 1]  u == c.ts[s.k + 2]  n == Len(s.x)
                   y == TLCEval([i \in 1..n |-> Move(c, s.x[i], t, u)]) IN
               [k |-> s.k + 1, x |-> y, sum |-> s.sum,
                err |-> RAdd(s.err, RSumSeq([i \in 1..n |-> Sq(Mismatch(c, s.x[i], y[i], t, u))]))]
\* e events: "eval" = the parametric map is asked for its value, "loss" = the value returned
IClauses(c, s, e) ==
  CASE e.e = "eval" ->
         << <<"one evaluation per step", s.k < K(c)>>,
            <<"evaluated at the time reached", s.k < K(c) => e.t = c.ts[s.k + 2]>>,
            <<"with the parametric map's parameters", e.param>>,
            <<"the samples moved by the simulator", (c.exact /\ s.k < K(c)) => CloseMat(e.x, Next1(c, s).x, 16)>>,
            <<"noise of variance dt dispersion(t)^2", (~c.exact /\ s.k < K(c)) =>
                 Ok(NormalOk(e.m, c.var[s.k + 1], c.R0))>>,
            <<"noise independent across samples and entries", ~c.exact => CorrOk(e.r, c.R0)>> >>
    [] e.e = "loss" ->
         << <<"all steps visited", s.k = K(c)>>,
            <<"a scalar of the mean squared mismatch", c.exact => Close(e.v, RMul(Weight(c), s.err), 24)>>,
            <<"squared deviations from the target", ~c.exact => Close(e.v, Q(s.sum, c.cells * (IF c.kind = "disc" THEN 1 ELSE K(c))), 40)>> >>
    [] e.e = "noise" -> << <<"noise independent across steps", CorrOk(e.r, c.R0)>> >>
    [] e.e = "agree" -> << <<"looped and vectorised losses agree", Close(e.d, RZero, 40)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
IStep(c, s, e) == CASE e.e = "eval" -> IF c.exact THEN Next1(c, s) ELSE [s EXCEPT !.k = @ + 1, !.sum = @ + e.S]
                    [] e.e = "loss" -> IInit(c)
                    [] OTHER -> s
IEnd(c, s) == << <<"a loss is returned", s.k = 0>> >>
================================================================================
