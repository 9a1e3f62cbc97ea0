-------------------------------- MODULE TrainingMC --------------------------------
(* All runs of the alternation on small data sets: every order of the images. *)
EXTENDS Training
VARIABLES c, s, log
vars == <<c, s, log>>
Conf(B, spe, ne, nsb, kind) ==
  [kind |-> kind, schedule |-> "cos", D |-> spe, spe |-> spe, B |-> B, n |-> B * spe, nepochs |-> ne, nsb |-> nsb, lr |-> 1000, big |-> FALSE, clip |-> FALSE,
   ib |-> <<8000, 8000>>, if |-> <<9000, 9000>>]
Init == /\ c \in {Conf(1, 2, 2, 2, "sb"), Conf(2, 2, 1, 2, "sb"), Conf(1, 3, 2, 1, "score"), Conf(1, 3, 1, 2, "sb")}
        /\ s = TrInit(c) /\ log = <<>>
Step == /\ ~Done(c, s) /\ ~s.ck
        /\ \E ids \in IF s.ph = "bwd" THEN {q \in [1..c.B -> 0..(c.n - 1)] : \A i, j \in 1..c.B : i < j => q[i] < q[j]} ELSE {<<>>} :
             /\ \A i \in 1..Len(ids) : ids[i] \notin s.seen
             /\ s' = Adv(c, s, Cur(c, s, s.ph), ids)
        /\ log' = Append(log, [ph |-> s.ph, it |-> s.it, sim |-> Cur(c, s, Other(s.ph)), p |-> Cur(c, s, s.ph)])
        /\ UNCHANGED c
Save == ~Done(c, s) /\ s.ck /\ s' = Check(c, s) /\ log' = Append(log, [ph |-> "ckpt", it |-> s.it, sim |-> Cur(c, s, "fwd"), p |-> Cur(c, s, "bwd")]) /\ UNCHANGED c
Stop == Done(c, s) /\ UNCHANGED vars
Next == Step \/ Save \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* no epoch gets stuck, all images are seen, and training ends
Progress == ~Done(c, s) => ENABLED (Step \/ Save)
Whole == (s.ph = "bwd" /\ s.j = 0 /\ s.prev # <<>>) => {s.prev[i] : i \in 1..Len(s.prev)} = 0..(c.n - 1)
Counts == s.ck => s.n["bwd"] = (s.it + 1) * c.nepochs * c.spe /\ s.n["fwd"] = IF c.kind = "sb" THEN s.n["bwd"] ELSE 0
\* during a phase the simulating network stands still
Still == \A i \in 1..(Len(log) - 1) : (log[i].ph = log[i + 1].ph /\ log[i].it = log[i + 1].it) => log[i].sim = log[i + 1].sim
\* every step continues from where its network was
Falls == \A i \in 1..Len(log) : \A j \in (i + 1)..Len(log) : (log[i].ph = log[j].ph /\ log[i].ph # "ckpt") => log[j].p[1] < log[i].p[1]
Ends == <>Done(c, s)
===================================================================================
