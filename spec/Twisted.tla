------------------------------- MODULE Twisted -------------------------------
(* One run of twisted SMC.  All densities are powers of two, given by their
   exponents; exponent Zero stands for density 0.
   Step k >= 1 uses time index k; step 0 is the initialisation at time index 0. *)
EXTENDS Integers, Sequences

TWScale == 65536
Zero == -1000
NoneT == <<>>
TAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE TSum(_)
TSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + TSum(Tail(s))
RECURSIVE P2(_)
P2(n) == IF n <= 0 THEN 1 ELSE 2 * P2(n - 1)
TTake(us, inds) == [i \in 1..Len(inds) |-> us[inds[i] + 1]]
TGood(n, inds) == Len(inds) = n /\ \A i \in 1..n : inds[i] \in 0..(n - 1)
\* integer weights proportional to 2^e
IntW(es) == LET pos == {es[i] : i \in {j \in 1..Len(es) : es[j] > Zero}}
                lo == IF pos = {} THEN 0 ELSE CHOOSE m \in pos : \A x \in pos : m <= x
            IN [i \in 1..Len(es) |-> IF es[i] > Zero THEN P2(es[i] - lo) ELSE 0]
TMatch(W, q) ==
    LET S == TSum(W) IN
    /\ Len(q) = Len(W) /\ S > 0
    /\ \A i \in 1..Len(W) : TAbs(q[i] * S - W[i] * TWScale) <= 2 * S
\* exponent of a product and quotient of densities
EAdd(x, y) == IF x <= Zero \/ y <= Zero THEN Zero ELSE x + y
ESub(x, y) == IF x <= Zero THEN Zero ELSE x - y

TWInit(c) == [ph |-> "init", k |-> 0, us |-> NoneT, tw |-> NoneT, w |-> NoneT,
              A |-> NoneT, prop |-> NoneT, td |-> NoneT, pd |-> NoneT, ntw |-> NoneT]
Sel(s) == TTake(s.us, s.A)

TWClauses(c, s, e) ==
  CASE e.e = "init" ->
         << <<"initial sampler called once, first", s.ph = "init">>,
            <<"initial sampler asked for n particles", e.n = c.n>> >>
    [] e.e = "tw" ->
         << <<"twisting density due", (s.ph = "itw") \/ (s.ph = "run" /\ s.prop # NoneT /\ s.ntw = NoneT)>>,
            <<"twisting density of the new particles", e.us = IF s.ph = "itw" THEN s.us ELSE s.prop>>,
            <<"twisting density at this step's time", e.t = IF s.ph = "itw" THEN 0 ELSE s.k + 1>>,
            <<"twisting density given y", e.y = c.y>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "sel" ->
         << <<"one resampling per step", s.ph = "run" /\ s.k < c.K /\ s.A = NoneT>>,
            <<"resampler given the normalised weights", s.w # NoneT /\ TMatch(s.w, e.q)>>,
            <<"resampler returns n indices", TGood(c.n, e.inds)>> >>
    [] e.e = "prop" ->
         << <<"proposal follows the selection", s.ph = "run" /\ s.A # NoneT /\ s.prop = NoneT>>,
            <<"proposed from the selected ancestors", s.A # NoneT /\ e.us = Sel(s)>>,
            <<"proposal at this step's time", e.t = s.k + 1>>,
            <<"proposal given y", e.y = c.y>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "td" ->
         << <<"one transition density per step", s.ph = "run" /\ s.prop # NoneT /\ s.td = NoneT>>,
            <<"transition density of the new particles", e.us = s.prop>>,
            <<"given their ancestors", s.A # NoneT /\ e.up = Sel(s)>>,
            <<"transition density at this step's time", e.t = s.k + 1>> >>
    [] e.e = "pd" ->
         << <<"one proposal density per step", s.ph = "run" /\ s.prop # NoneT /\ s.pd = NoneT>>,
            <<"proposal density of the new particles", e.us = s.prop>>,
            <<"given their ancestors", s.A # NoneT /\ e.up = Sel(s)>>,
            <<"proposal density at this step's time", e.t = s.k + 1>>,
            <<"proposal density given y", e.y = c.y>>,
            <<"keyword arguments forwarded", e.kw = c.kw>> >>
    [] e.e = "ret" ->
         << <<"all times were consumed", s.ph = "run" /\ s.k = c.K>>,
            <<"returned particles", e.us = s.us>>,
            <<"returned log weights are normalised", s.w # NoneT /\ TMatch(s.w, e.q)>> >>
    [] OTHER -> << <<e.clause, FALSE>> >>

TWCommit(c, s) ==
  IF s.A = NoneT \/ s.prop = NoneT \/ s.td = NoneT \/ s.pd = NoneT \/ s.ntw = NoneT THEN s
  ELSE LET old == TTake(s.tw, s.A)
           es == [i \in 1..c.n |-> ESub(ESub(EAdd(s.td[i], s.ntw[i]), s.pd[i]), old[i])]
       IN [s EXCEPT !.k = @ + 1, !.us = s.prop, !.tw = s.ntw, !.w = IntW(es),
                    !.A = NoneT, !.prop = NoneT, !.td = NoneT, !.pd = NoneT, !.ntw = NoneT]

TWStep(c, s, e) ==
  CASE e.e = "init" -> [s EXCEPT !.ph = "itw", !.us = e.out]
    [] e.e = "tw"   -> IF s.ph = "itw" THEN [s EXCEPT !.ph = "run", !.tw = e.w, !.w = IntW(e.w)]
                       ELSE TWCommit(c, [s EXCEPT !.ntw = e.w])
    [] e.e = "sel"  -> [s EXCEPT !.A = e.inds]
    [] e.e = "prop" -> [s EXCEPT !.prop = e.out]
    [] e.e = "td"   -> TWCommit(c, [s EXCEPT !.td = e.w])
    [] e.e = "pd"   -> TWCommit(c, [s EXCEPT !.pd = e.w])
    [] e.e = "ret"  -> [s EXCEPT !.ph = "done"]
    [] OTHER -> s
TWEnd(c, s) == << <<"the run returned", s.ph = "done">> >>
=============================================================================
