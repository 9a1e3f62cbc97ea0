--------------------------------- MODULE Training ---------------------------------
(* The training scripts.  A bridge is trained by alternation: in each iteration first the
   backward network on paths of the forward process (of the reference SDE in the very first
   iteration, of the forward network afterwards), then the forward network on paths of the
   backward network from N(0, I); a checkpoint follows.  Each phase has nepochs epochs of spe
   steps; an epoch of a phase that uses data visits disjoint batches.  A diffusion model has the
   one phase.  The loss is replaced by one with a known constant gradient, so that a step of the
   optimiser is the learning rate of the schedule.
   Parameters are in units of 2^-18, other numbers of 2^-11. *)
EXTENDS Moments, Clauses, FiniteSets, TLC
U18 == 262144
\* cos(pi k / D) in units of 10^-4
Cos(k, D) == CASE D = 1 -> <<10000>>[k + 1]
               [] D = 2 -> <<10000, 0>>[k + 1]
               [] D = 3 -> <<10000, 5000, -5000>>[k + 1]
               [] D = 4 -> <<10000, 7071, 0, -7071>>[k + 1]
               [] D = 6 -> <<10000, 8660, 5000, 0, -5000, -8660>>[k + 1]
RECURSIVE Geo(_, _)
Geo(x, k) == IF k = 0 THEN x ELSE Geo((x * 96) \div 100, k - 1)
\* decay of the k-th step (k = 0, 1, ...) in units of 10^-4
Decay(c, k) ==
  CASE c.schedule = "cos" -> IF k >= c.D THEN 100 ELSE ((99 * (10000 + Cos(k, c.D))) \div 2 + 10000) \div 100
    [] c.schedule = "exp" -> LET z == Geo(10000000, k \div c.spe) \div 1000 IN
                             IF k % c.spe = 0 THEN z ELSE (z * 9798) \div 10000       \* spe is one or two
    [] OTHER -> 10000
\* gradients of norm 100, 1/2 in the runs about clipping: the second step of Adam
Shrink(c, k) == IF ~c.big \/ k = 0 THEN 10000 ELSE IF c.clip THEN 9322 ELSE 6738
Rate(c, k) == (c.lr * Decay(c, k)) \div 10000
Move(c, k) == (Rate(c, k) * Shrink(c, k)) \div 10000
Other(w) == IF w = "bwd" THEN "fwd" ELSE "bwd"
\* the parameter of network w after all its steps so far: p is what its last step started from
Cur(c, s, w) == [i \in 1..2 |-> s.p[w][i] - (IF s.n[w] = 0 THEN 0 ELSE Move(c, s.n[w] - 1))]
Same(a, b, tol) == Len(a) = 2 /\ Len(b) = 2 /\ \A i \in 1..2 : Abs(a[i] - b[i]) <= tol
Near(v, w) == Abs(v - w) <= 6 + Abs(w) \div 200
NetAt(p, x, t) == (p[1] * x + p[2] * t) \div 2048
B2(c, t) == IF c.sde = "const" THEN 2048 ELSE 41 + (c.slope * t) \div 100
RefAt(c, x, t) == -((B2(c, t) * x) \div 4096)
Sorted(ts) == \A i \in 1..(Len(ts) - 1) : ts[i] <= ts[i + 1]
Rev(ts) == [i \in 1..Len(ts) |-> ts[Len(ts) + 1 - i]]
Grid(c, ts) == Len(ts) = c.nsteps + 1 /\ Abs(ts[1]) <= 1 /\ Abs(ts[Len(ts)] - c.Tend) <= 1 /\ Sorted(ts)
Last(c, s) == s.ep = c.nepochs - 1 /\ s.j = c.spe - 1
Done(c, s) == s.it = c.nsb

\* average of the weights (label j + 1 after step j of an epoch): every second step from the 300th on, in units of 2^-12
RECURSIVE Avg(_)
Avg(j) == IF j < 300 THEN (j + 1) * 4096 ELSE IF j % 2 = 0 THEN (99 * Avg(j - 1) + (j + 1) * 4096 + 50) \div 100 ELSE Avg(j - 1)

TrInit(c) == [it |-> 0, ph |-> "bwd", ep |-> 0, j |-> 0, ck |-> FALSE, seen |-> {}, ord |-> <<>>, prev |-> <<>>,
            p |-> [bwd |-> c.ib, fwd |-> c.if], n |-> [bwd |-> 0, fwd |-> 0], what |-> {}]
\* the machine: one step of the optimiser; a checkpoint
Adv(c, s, p, ids) ==
  LET s1 == [s EXCEPT !.p[s.ph] = p, !.n[s.ph] = @ + 1, !.seen = @ \cup {ids[i] : i \in 1..Len(ids)}, !.ord = @ \o ids]
      s2 == IF s.j = c.spe - 1 THEN [s1 EXCEPT !.j = 0, !.ep = @ + 1, !.seen = {}, !.prev = s1.ord, !.ord = <<>>] ELSE [s1 EXCEPT !.j = @ + 1] IN
  IF ~Last(c, s) THEN s2
  ELSE IF s.ph = "bwd" /\ c.kind = "sb" THEN [s2 EXCEPT !.ph = "fwd", !.ep = 0]
  ELSE [s2 EXCEPT !.ep = 0, !.ck = TRUE]
Check(c, s) == [s EXCEPT !.it = @ + 1, !.ph = "bwd", !.ck = FALSE]

Clause(c, s, e) ==
  CASE e.e = "step" ->
         << <<"training goes on until all iterations are done, with a checkpoint after each", ~Done(c, s) /\ ~s.ck>>,
            <<"the network in training is passed on from step to step, at the rate of the schedule", Same(e.p, Cur(c, s, s.ph), 6 + c.lr \div 2000)>>,
            <<"images: batches of an epoch are disjoint and of the size asked for",
              (s.ph = "bwd") => /\ Len(e.ids) = c.B /\ Cardinality({e.ids[i] : i \in 1..c.B}) = c.B
                                /\ \A i \in 1..c.B : e.ids[i] \in 0..(c.n - 1) /\ e.ids[i] \notin s.seen>>,
            <<"an epoch visits all images when batches divide them",
              (s.ph = "bwd" /\ s.j = c.spe - 1 /\ c.n = c.B * c.spe) => Cardinality(s.seen \cup {e.ids[i] : i \in 1..c.B}) = c.n>>,
            <<"epochs have orders of their own", (s.ph = "bwd" /\ s.j = c.spe - 1) => s.ord \o e.ids # s.prev>> >>
         \o (IF c.kind # "sb" THEN <<>> ELSE
         << <<"paths are simulated with the other network, in its current state", Same(e.sp, Cur(c, s, Other(s.ph)), 6 + c.lr \div 2000)>>,
            <<"the forward network learns from reference samples", (s.ph = "fwd") => \A i \in 1..Len(e.ids) : e.ids[i] = -1>>,
            <<"the loss type asked for", e.vmap = c.vmap>>,
            <<"times run from data to reference, or back", Grid(c, IF s.ph = "bwd" THEN e.ts ELSE Rev(e.ts))>>,
            <<"the first simulations are of the reference SDE, later ones of the networks",
              Near(e.sim[3], IF s.ph = "bwd" /\ s.it = 0 THEN RefAt(c, e.sim[1], e.sim[2]) ELSE NetAt(c.pp, e.sim[1], e.sim[2]))>>,
            <<"the drift learnt is the network's", Near(e.par[3], NetAt(c.pp, e.par[1], e.par[2]))>>,
            <<"dispersion of the reference SDE", Near(e.b2[2], B2(c, e.b2[1]))>> >>)
    [] e.e = "ckpt" ->
         << <<"a checkpoint after every iteration", s.ck /\ ~Done(c, s) /\ e.it = s.it>>,
            <<"the checkpoint holds both networks as they are",
              Same(e.bwd, Cur(c, s, "bwd"), 6 + c.lr \div 2000) /\ Same(e.fwd, Cur(c, s, "fwd"), 6 + c.lr \div 2000)>> >>
    [] e.e = "pool" ->
         << <<"training times are uniform", \A i \in 1..Len(e.times) : MeanOk(e.times[i][1], <<1, 2>>, <<1, 12>>, e.Rt) /\ MeanOk(e.times[i][2], <<1, 3>>, <<4, 45>>, e.Rt)>>,
            <<"reference samples are standard normal", \A i \in 1..Len(e.m) : Ok(NormalOk(e.m[i], ROne, e.R0))>>,
            <<"reference samples are fresh", e.distinct = e.draws>>,
            <<"every step has fresh randomness", e.keys = e.calls /\ e.grids = e.calls /\ e.kin = 0>> >>
    \* the drift with which samples are drawn after training
    [] e.e = "verify" ->
         << <<"samples are drawn with the trained network",
              \A i \in 1..Len(e.rows) : Near(e.rows[i][3], NetAt([j \in 1..2 |-> Cur(c, s, "bwd")[j] \div 128], e.rows[i][1], e.rows[i][2]))>>,
            <<"samples run from the end of the process to its start", Abs(e.ends[1] - c.Tend) <= 1 /\ Abs(e.ends[2]) <= 1 /\ e.mono>> >>
    [] e.e = "opts" -> << <<"the options of the command line reach the loss", e.got = e.want>> >>
    [] e.e = "law" ->
         << <<"drift and dispersion of the SDE", Near(e.sim[3], RefAt(c, e.sim[1], e.sim[2])) /\ Near(e.b2[2], B2(c, e.b2[1]))>>,
            <<"the network in training is the one made", Near(e.par[3], NetAt(c.pp, e.par[1], e.par[2]))>> >>
    \* labelled steps: the checkpoints of a long run
    [] e.e = "flow" ->
         << <<"the parameter and the optimiser's state pass from step to step", e.breaks = 0 /\ e.steps = c.nepochs * c.spe>>,
            <<"checkpoints every hundred epochs", e.names = [i \in 1..(c.nepochs \div 100) |-> 100 * i - 1]>>,
            <<"the checkpoint holds the network and its average",
              \A i \in 1..Len(e.ck) : e.ck[i][1] = c.spe * 4096 /\ Abs(e.ck[i][2] - Avg(c.spe - 1)) <= 4>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
TrStep(c, s, e) ==
  LET t == [s EXCEPT !.what = @ \cup {e.e}] IN
  IF e.e = "step" THEN Adv(c, t, e.p, e.ids) ELSE IF e.e = "ckpt" THEN Check(c, t) ELSE t
TrEnd(c, s) ==
  << <<"all iterations were done", c.kind # "sb" \/ Done(c, s)>>,
     <<"all steps were done", c.kind # "score" \/ s.n["bwd"] = c.nepochs * c.spe>>,
     <<"everything was observed", \A x \in {c.need[i] : i \in 1..Len(c.need)} : x \in s.what>> >>
===================================================================================
