------------------------------ MODULE TraceRun ------------------------------
(* The common engine of every trace specification.

   A specification describes one run of the code as a state record that evolves
   by events.  It supplies
     TInit(c)        the initial state for the trace header c,
     TFail(c, s, e)  the sequence of names of the clauses that forbid event e in
                     state s (empty: the event is a step of the specification),
     TStep(c, s, e)  the state after e,
     TEnd(c, s)      the names of the clauses that forbid stopping in s.
   The same operators define the transitions of the model-checked design
   specification, so the trace specification reuses its actions verbatim.

   Verdicts are total: each trace is either consumed completely or rejected with
   the position and the name of the violated clause, and validation goes on with
   the next trace. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS TInit(_), TFail(_, _, _), TStep(_, _, _), TEnd(_, _)

\* read once, kept in a TLC register (one worker)
Traces == TLCGet(7)

VARIABLES tid, l, st

tvars == <<tid, l, st>>

TraceInit == /\ TLCSet(7, ndJsonDeserialize(IOEnv.TRACES))
             /\ tid = 1
             /\ l = 1
             /\ st = IF Traces = <<>> THEN <<>> ELSE TInit(Traces[1].c)

NextTrace == /\ tid' = tid + 1
             /\ l' = 1
             /\ st' = IF tid < Len(Traces) THEN TInit(Traces[tid + 1].c) ELSE <<>>

Say(x) == PrintT("@@" \o ToJson(x))

Consume ==
  /\ tid <= Len(Traces)
  /\ LET t == Traces[tid] IN
     IF l <= Len(t.ev)
     THEN LET fail == TFail(t.c, st, t.ev[l]) IN
          IF fail = <<>>
          THEN /\ st' = TStep(t.c, st, t.ev[l])
               /\ l' = l + 1
               /\ UNCHANGED tid
          ELSE /\ Say([reject |-> tid, l |-> l, clause |-> Head(fail)])
               /\ NextTrace
     ELSE LET fail == TEnd(t.c, st) IN
          /\ IF fail = <<>> THEN TRUE ELSE Say([reject |-> tid, l |-> l, clause |-> Head(fail)])
          /\ NextTrace

Finish == /\ tid = Len(Traces) + 1
          /\ Say([done |-> tid - 1])
          /\ tid' = tid + 1
          /\ UNCHANGED <<l, st>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars

=============================================================================
