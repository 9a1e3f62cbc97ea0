---------------------------------- MODULE Train ----------------------------------
(* Training: an optimiser kernel and an averaging kernel used over a history.
   The loss of parameters p on data (b, w) is  sum_i a_i (p_i - b_i)^2 / 2 + w sum_i p_i;
   the optimiser is gradient descent with momentum mu, weight decay wd and a learning rate
   lr that halves after c.half steps.  A state of the optimiser is [p, v, n]; all states ever
   produced stay usable (checkpoints), so a step names the one it starts from. *)
EXTENDS Num, Clauses

Grad(c, p, b, w) == [i \in 1..Len(p) |-> RAdd(RMul(c.a[i], RSub(p[i], b[i])), w)]
Loss(c, p, b, w) == RAdd(RMul(<<1, 2>>, RSumSeq([i \in 1..Len(p) |-> RMul(c.a[i], RMul(RSub(p[i], b[i]), RSub(p[i], b[i])))])),
                         RMul(w, RSumSeq(p)))
Lr(c, n) == IF n < c.half THEN c.lr ELSE RMul(<<1, 2>>, c.lr)
OptStep(c, s, b, w) ==
  LET g == VAdd(Grad(c, s.p, b, w), VScale(c.wd, s.p))
      v == VAdd(g, VScale(c.mu, s.v)) IN
  [p |-> VSub(s.p, VScale(Lr(c, s.n), v)), v |-> v, n |-> s.n + 1]
\* the averaged parameters after a call with this count
Ema(ema, p, count, start, every, decay) ==
  IF count < start THEN p
  ELSE IF count % every = 0 THEN VAdd(VScale(decay, ema), VScale(RSub(ROne, decay), p))
  ELSE ema

TInit0(c) == [opt |-> << [p |-> c.p0, v |-> [i \in 1..Len(c.p0) |-> RZero], n |-> 0] >>, ema |-> << c.p0 >>]
TrClauses(c, s, e) ==
  CASE e.e = "opt" ->
         LET o == s.opt[e.from] IN
         << <<"the loss at the parameters given", Close(e.loss, Loss(c, o.p, e.b, e.w), 16)>>,
            <<"the optimiser's update of the parameters", CloseSeq(e.p, OptStep(c, o, e.b, e.w).p, 16)>> >>
    [] e.e = "ema" ->
         << <<"the averaging schedule", CloseSeq(e.v, Ema(s.ema[e.from], s.opt[e.at].p, e.count, e.start, e.every, e.decay), 8)>> >>
    [] e.e = "like" ->      \* any other optimiser: against the optimiser itself
         << <<"the loss at the parameters given", Close(e.loss, RZero, 4)>>,
            <<"the optimiser's update of the parameters", Close(e.p, RZero, 40)>>,
            <<"the advanced optimiser state", Close(e.s, RZero, 40)>>,
            <<"compiled and interpreted kernels agree", Close(e.j, RZero, 40)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
TrStep(c, s, e) ==
  CASE e.e = "opt" -> [s EXCEPT !.opt = Append(@, OptStep(c, s.opt[e.from], e.b, e.w))]
    [] e.e = "ema" -> [s EXCEPT !.ema = Append(@, Ema(s.ema[e.from], s.opt[e.at].p, e.count, e.start, e.every, e.decay))]
    [] OTHER -> s
TrEnd(c, s) == << >>
================================================================================
