-------------------------------- MODULE CSMC --------------------------------
(* One run of a conditional SMC kernel as a state machine: a forward pass with a
   reference trajectory, then (by mode)
     "fwd"       nothing: ancestors, weights and particles are returned,
     "scan"      a final index is selected and its lineage traced,
     "backward"  indices are selected backwards by transition densities.
   Particles are abstract labels; c (constant over a run) holds
     n     number of particles, the reference included
     K     number of steps,           star   reference labels u*_0..u*_K
     bs    reference slots b*_0..b*_K (0-based)
     mode, kw
   Weights are integers per particle.  Sequences are indexed by step + 1.
   Step k selects ancestors, weighs them and propagates them.  Only data flow orders the
   events: the selection of step k + 1 needs the weights of step k but not its particles,
   so the propagation of step k may come late (late: the ancestors it is due for). *)
EXTENDS Integers, Sequences, FiniteSets

CScale == 65536
CAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + CSum(Tail(s))
CNone == <<>>
CTake(us, inds) == [i \in 1..Len(inds) |-> us[inds[i] + 1]]
CGood(n, inds) == Len(inds) = n /\ \A i \in 1..n : inds[i] \in 0..(n - 1)
\* integer weights W and reported normalised weights q agree
CMatch(W, q) ==
    LET S == CSum(W) IN
    /\ Len(q) = Len(W)
    /\ S > 0
    /\ \A i \in 1..Len(W) : CAbs(q[i] * S - W[i] * CScale) <= 2 * S
Pin(us, b, x) == [us EXCEPT ![b + 1] = x]

CSInit(c) == [ph |-> "init", k |-> 0, us |-> CNone, w |-> CNone,
              A |-> CNone, prop |-> CNone, lik |-> CNone, late |-> CNone,
              hist |-> <<>>,        \* particles of steps 0..k
              As |-> <<>>,          \* ancestors of steps 1..k
              ws |-> <<>>,          \* weights of steps 0..k
              back |-> <<>>]        \* backward: <<selected, its densities>> of steps K, K-1, ..

\* a likelihood evaluation that belongs to a later (backward) weighting of step j
Query(c, s, e) == \E j \in 1..Len(s.hist) :
                     j <= c.K /\ e.us = s.hist[j] /\ e.v = j /\ e.vp = j - 1 /\ e.t = j - 1
Current(c, s, e) == s.ph = "run" /\ s.k < c.K /\ s.A # CNone /\ s.lik = CNone /\ s.late = CNone
                    /\ e.us = CTake(s.us, s.A) /\ e.v = s.k + 1 /\ e.vp = s.k /\ e.t = s.k

AllRun(c, s) == s.ph = "run" /\ s.k = c.K /\ s.late = CNone
\* the step whose propagation is due next
PStep(s) == IF s.late = CNone THEN s.k ELSE s.k - 1
PDue(c, s) == s.ph = "run" /\ (s.late # CNone \/ (s.k < c.K /\ s.A # CNone /\ s.prop = CNone))
ValidRet(c, s, e) == /\ AllRun(c, s)
                     /\ Len(e.us) = c.K + 1 /\ Len(e.bs) = c.K + 1
                     /\ \A k \in 1..(c.K + 1) : e.bs[k] \in 0..(c.n - 1)

\* a backward density evaluation is due; the next state selected is of step K - Len(back)
TdDue(c, s) == c.mode = "backward" /\ AllRun(c, s) /\ Len(s.back) < c.K

CSClauses(c, s, e) ==
  CASE e.e = "init" ->
         << <<"initial sampler called once, first", s.ph = "init">>,
            <<"initial sampler asked for all particles", e.n = c.n>> >>
    [] e.e = "ilik" ->
         << <<"initial weighting follows the initial draw", s.ph = "ilik">>,
            <<"initial particles weighed, reference in place", e.us = s.us>>,
            <<"initial likelihood given v_0", e.v0 = 0>>,
            <<"initial likelihood given v_1", e.v1 = 1>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "res" ->
         << <<"one conditional resampling per step", s.ph = "run" /\ s.k < c.K /\ s.A = CNone>>,
            <<"resampler given the previous normalised weights", s.w # CNone /\ CMatch(s.w, e.q)>>,
            <<"conditioned on the reference ancestor b*_{k-1}", s.k < c.K /\ e.i = c.bs[s.k + 1]>>,
            <<"at the reference slot b*_k", s.k < c.K /\ e.j = c.bs[s.k + 2]>>,
            <<"conditional resampling requested", e.cond>>,
            <<"resampler returns n indices", CGood(c.n, e.inds)>> >>
    [] e.e = "prop" ->
         << <<"propagation follows the selection", PDue(c, s)>>,
            <<"selected ancestors are propagated", PDue(c, s) /\ e.us = (IF s.late # CNone THEN s.late ELSE CTake(s.us, s.A))>>,
            <<"transition given v_{k-1}", e.v = PStep(s)>>,
            <<"transition given t_{k-1}", e.t = PStep(s)>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "lik" ->
         << <<"weights v_k at the selected ancestors, given v_{k-1} and t_{k-1}",
              Current(c, s, e) \/ (c.mode = "backward" /\ Query(c, s, e))>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "td" ->
         << <<"transition densities only in the backward pass", TdDue(c, s)>>,
            <<"density of the selected next state",
              TdDue(c, s) /\ \E i \in 1..c.n : LET h == s.hist[c.K + 1 - Len(s.back)] IN
                 /\ h[i] = e.x
                 /\ s.ws[c.K + 1 - Len(s.back)][i] > 0
                 /\ Len(s.back) = 0 \/ s.back[Len(s.back)].d[i] > 0>>,
            <<"given each particle one step earlier", TdDue(c, s) /\ e.us = s.hist[c.K - Len(s.back)]>>,
            <<"density given v_{k-1}", e.v = c.K - 1 - Len(s.back)>>,
            <<"density given t_{k-1}", e.t = c.K - 1 - Len(s.back)>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "fret" ->
         << <<"all steps were run", AllRun(c, s)>>,
            <<"returned ancestors", e.As = s.As>>,
            <<"returned particles", e.us = s.hist>>,
            <<"returned log weights are the normalised weights",
              Len(e.q) = c.K + 1 /\ s.k = c.K /\ Len(s.ws) = c.K + 1 /\ \A k \in 1..(c.K + 1) : CMatch(s.ws[k], e.q[k])>> >>
    [] e.e = "ret" ->
         << <<"all steps were run", AllRun(c, s)>>,
            <<"one state and index per step", Len(e.us) = c.K + 1 /\ Len(e.bs) = c.K + 1>>,
            <<"indices in range", \A k \in 1..Len(e.bs) : e.bs[k] \in 0..(c.n - 1)>>,
            <<"states are the particles at the returned indices", ValidRet(c, s, e) /\
              \A k \in 1..(c.K + 1) : e.us[k] = s.hist[k][e.bs[k] + 1]>>,
            <<"final index has positive weight", ValidRet(c, s, e) /\ s.ws[c.K + 1][e.bs[c.K + 1] + 1] > 0>>,
            <<"the trajectory is a recorded lineage", ValidRet(c, s, e) /\
              (c.mode = "scan" => \A k \in 1..c.K : e.bs[k] = s.As[k][e.bs[k + 1] + 1])>>,
            <<"backward pass evaluated the selected states", ValidRet(c, s, e) /\
              (c.mode = "backward" => /\ Len(s.back) = c.K
                                      /\ \A j \in 1..c.K : /\ s.back[j].x = e.us[c.K + 2 - j]
                                                           /\ s.back[j].d[e.bs[c.K + 1 - j] + 1] > 0
                                                           /\ s.ws[c.K + 1 - j][e.bs[c.K + 1 - j] + 1] > 0)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>
CSCommit(c, s) ==
  IF s.A = CNone \/ s.lik = CNone THEN s
  ELSE LET new == IF s.prop = CNone THEN CNone ELSE Pin(s.prop, c.bs[s.k + 2], c.star[s.k + 2])
       IN [s EXCEPT !.k = @ + 1, !.us = new, !.w = s.lik, !.A = CNone, !.prop = CNone, !.lik = CNone,
                    !.late = IF new = CNone THEN CTake(s.us, s.A) ELSE CNone,
                    !.hist = IF new = CNone THEN @ ELSE Append(@, new), !.As = Append(@, s.A), !.ws = Append(@, s.lik)]
CSProp(c, s, out) ==
  IF s.late = CNone THEN CSCommit(c, [s EXCEPT !.prop = out])
  ELSE LET new == Pin(out, c.bs[s.k + 1], c.star[s.k + 1]) IN [s EXCEPT !.us = new, !.hist = Append(@, new), !.late = CNone]

CSStep(c, s, e) ==
  CASE e.e = "init" -> LET u == Pin(e.out, c.bs[1], c.star[1]) IN
                       [s EXCEPT !.ph = "ilik", !.us = u, !.hist = <<u>>]
    [] e.e = "ilik" -> [s EXCEPT !.ph = "run", !.w = e.w, !.ws = <<e.w>>]
    [] e.e = "res"  -> CSCommit(c, [s EXCEPT !.A = e.inds])
    [] e.e = "prop" -> CSProp(c, s, e.out)
    [] e.e = "lik"  -> IF Current(c, s, e) THEN CSCommit(c, [s EXCEPT !.lik = e.w]) ELSE s
    [] e.e = "td"   -> [s EXCEPT !.back = Append(@, [x |-> e.x, d |-> e.w])]
    [] e.e \in {"fret", "ret"} -> [s EXCEPT !.ph = "done"]
    [] OTHER -> s
CSEnd(c, s) == << <<"the run returned", s.ph = "done">> >>
=============================================================================
