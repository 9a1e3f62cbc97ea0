-------------------------------- MODULE Gibbs --------------------------------
(* A chain of Gibbs sweeps (mode "kernel") and the initialisation (mode "init").
   c: K, np (particles, the reference included), n (the user's nparticles), y0, x0,
      bs (initial reference slots), marg, expl (explicit backward), ref (explicit
      reference distribution), method, kw, steps.
   Paths are sequences of labels for times t_0..t_K; the conditional SMC runs on the
   reversed sequences.  When y is marginalised, the interior measurement at time
   index j carries the label BR + j. *)
EXTENDS Smoother
BR == 100000
GNone == <<>>
Rv(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
GInit(c) == [x0 |-> c.x0, bs |-> c.bs, done |-> 0,
             xs |-> GNone, ys |-> GNone,      \* the sweep's forward path
             k |-> 0, cur |-> GNone, w |-> GNone,   \* particles of step k (pinned) and weights of their ancestors
             sel |-> GNone, prop |-> GNone, lik |-> GNone,
             anc |-> <<>>, hist |-> <<>>,     \* labels propagated from, particles, per step 1..
             x1 |-> 0, xs2 |-> GNone,         \* explicit backward: new state and its path
             sm |-> SMInit]
V(c, s) == [i \in 1..(c.K + 1) |-> IF c.marg /\ i > 1 /\ i <= c.K THEN BR + c.K + 1 - i ELSE Rv(s.ys)[i]]
U(c, s) == Rv(s.xs)
Kern(c) == c.mode = "kernel"

\* us is a legal selection among the particles of step k
Selection(c, s, us) ==
  /\ Len(us) = c.np
  /\ Kern(c) => us[s.bs[s.k + 2] + 1] = U(c, s)[s.k + 1]
  /\ IF s.k = 0
     THEN Kern(c) /\ ~c.ref => \A i \in 1..c.np : us[i] = U(c, s)[1]
     ELSE \A i \in 1..c.np : \E a \in 1..c.np :
            us[i] = s.cur[a] /\ (s.w[a] > 0 \/ (Kern(c) /\ i = s.bs[s.k + 2] + 1))
Running(c, s) == s.xs # GNone /\ s.k < c.K
\* states that may be picked at the end
Final(c, s) == IF s.k < c.K \/ s.cur = GNone THEN {} ELSE {s.cur[a] : a \in {b \in 1..c.np : s.w[b] > 0}}
Filt(c, s) == [i \in 1..Len(s.anc) |-> s.anc[i]]
Lineage(c, s, e) ==
  /\ s.k = c.K /\ Len(e.us) = c.K + 1 /\ Len(e.bs) = c.K + 1
  /\ \A k \in 1..(c.K + 1) : e.bs[k] \in 0..(c.np - 1)
  /\ \A k \in 1..c.K : /\ e.us[k + 1] = s.hist[k][e.bs[k + 1] + 1]
                       /\ e.us[k] = s.anc[k][e.bs[k + 1] + 1]
  /\ s.w[e.bs[c.K + 1] + 1] > 0

GClauses(c, s, e) ==
  CASE e.e = "fwd" /\ s.xs = GNone ->
         << <<"forward path starts from the current x0", e.x = s.x0>>,
            <<"forward path of the observation y0", e.y = c.y0>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "fwd" /\ s.xs # GNone ->
         << <<"a second forward path only where it is used", IF Kern(c) THEN c.expl ELSE c.method = "filter">>,
            <<"one fresh forward path", s.xs2 = GNone /\ s.k = c.K>>,
            <<"fresh path from a particle of the last step", e.x \in Final(c, s)>>,
            <<"forward path of the observation y0", e.y = c.y0>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "unpack" -> << <<"keyword arguments forwarded to unpack", e.kw = c.kw>> >>
    [] e.e = "prop" ->
         << <<"filter runs on the sweep's path", Running(c, s) /\ s.prop = GNone>>,
            <<"propagated particles are a selection with the reference in place", Running(c, s) /\
              IF s.sel # GNone THEN e.us = s.sel ELSE Selection(c, s, e.us)>>,
            <<"transition given v_{k-1} of the reversed y path", Running(c, s) /\ e.v = V(c, s)[s.k + 1]>>,
            <<"transition given t_{k-1}", e.t = s.k>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "lik" ->
         << <<"filter runs on the sweep's path", Running(c, s) /\ s.lik = GNone>>,
            <<"weighed particles are a selection with the reference in place", Running(c, s) /\
              IF s.sel # GNone THEN e.us = s.sel ELSE Selection(c, s, e.us)>>,
            <<"weighed against v_k", Running(c, s) /\ e.v = V(c, s)[s.k + 2]>>,
            <<"weight conditions on v_{k-1}", Running(c, s) /\ e.vp = V(c, s)[s.k + 1]>>,
            <<"weight evaluated at t_{k-1}", e.t = s.k>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "td" ->
         IF Kern(c) \/ c.method # "smoother" \/ s.k < c.K
         THEN << <<"transition densities are for the smoother", FALSE>> >>
         ELSE SMClauses(c, Filt(c, s), Final(c, s), s.sm, [e EXCEPT !.v = IF \E i \in 1..(c.K + 1) : V(c, s)[i] = e.v
                                              THEN (CHOOSE i \in 1..(c.K + 1) : V(c, s)[i] = e.v) - 1 ELSE -1])
    [] e.e = "ret" ->
         << <<"the filter ran to the end", s.xs # GNone /\ s.k = c.K>>,
            <<"one state and index per time", Len(e.us) = c.K + 1 /\ Len(e.bs) = c.K + 1>>,
            <<"indices in the particle range", \A i \in 1..Len(e.bs) : e.bs[i] \in 0..(c.np - 1)>>,
            <<"returned trajectory", s.k = c.K /\ IF c.expl THEN s.xs2 # GNone /\ e.us = Rv(s.xs2) ELSE Lineage(c, s, e)>>,
            <<"new x0 is a particle of the last step, the end of the trajectory",
              e.x = (IF c.expl THEN s.x1 ELSE e.us[Len(e.us)])>>,
            <<"flags are the changes of the indices", Len(e.bs) = c.K + 1 /\ e.fl = [i \in 1..(c.K + 1) |-> e.bs[i] # s.bs[i]]>> >>
    [] e.e = "iret" ->
         << <<"the filter ran to the end", s.xs # GNone /\ s.k = c.K>>,
            <<"returned state is a particle of the last step",
              CASE c.method = "filter" -> e.x = s.x1
                [] c.method = "smoother" -> e.x \in Final(c, s)
                [] OTHER -> Len(e.all) = c.K + 1 /\ s.k = c.K /\ (\A k \in 1..c.K : e.all[k] = s.anc[k])
                            /\ Len(e.all[c.K + 1]) = c.np /\ \A i \in 1..c.np : e.all[c.K + 1][i] \in Final(c, s)>>,
            <<"returned trajectory",
              CASE c.method = "filter" -> s.xs2 # GNone /\ e.us = Rv(s.xs2)
                [] c.method = "smoother" -> s.k = c.K /\ SMPath(c, Filt(c, s), Final(c, s), s.sm, e.us)
                [] OTHER -> e.us = <<>> >> >>
    [] OTHER -> << <<e.clause, FALSE>> >>

GCommit(c, s) ==
  IF s.prop = GNone \/ s.lik = GNone THEN s
  ELSE LET new == IF Kern(c) THEN [s.prop EXCEPT ![s.bs[s.k + 2] + 1] = U(c, s)[s.k + 2]] ELSE s.prop
       IN [s EXCEPT !.k = @ + 1, !.cur = new, !.w = s.lik, !.anc = Append(@, s.sel), !.hist = Append(@, new),
                    !.sel = GNone, !.prop = GNone, !.lik = GNone]
Clear(c, s) == [GInit(c) EXCEPT !.done = s.done + 1]
GStep(c, s, e) ==
  CASE e.e = "fwd" /\ s.xs = GNone -> [s EXCEPT !.xs = e.xs, !.ys = e.ys]
    [] e.e = "fwd" /\ s.xs # GNone -> [s EXCEPT !.x1 = e.x, !.xs2 = e.xs]
    [] e.e = "prop" -> GCommit(c, [s EXCEPT !.sel = e.us, !.prop = e.out])
    [] e.e = "lik"  -> GCommit(c, [s EXCEPT !.sel = e.us, !.lik = e.w])
    [] e.e = "td"   -> [s EXCEPT !.sm = SMStep(@, e)]
    [] e.e = "ret"  -> [Clear(c, s) EXCEPT !.x0 = e.x, !.bs = e.bs]
    [] e.e = "iret" -> Clear(c, s)
    [] OTHER -> s
GEnd(c, s) == << <<"every sweep returned", s.xs = GNone /\ s.done = c.steps>> >>
=============================================================================
