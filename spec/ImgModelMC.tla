-------------------------------- MODULE ImgModelMC --------------------------------
(* Restoration of a 5-pixel image, all masks: a chain of sweeps over the unobserved part.
   Labels stand for values.  The reverse step of the whole image is computed once from the
   image and once through the parts, as the experiments do. *)
EXTENDS ImgModel, FiniteSetsExt, SequencesExt
VARIABLES mask, true, u, us, k, out
vars == <<mask, true, u, us, k, out>>
N == 5
Pix == 0..(N - 1)
MC == [model |-> "diffusion", sde |-> "const", T |-> 4, K |-> 4, ema |-> FALSE, p |-> <<-14, 5, 3, 2>>, pema |-> <<-12, 3, -5, 1>>]
\* sorted index lists of the parts
UI(m) == SetToSortSeq(m, <)
VI(m) == SetToSortSeq(Pix \ m, <)
Concat(a, b, m) == [j \in Pix |-> IF j \in m THEN a[CHOOSE i \in 1..Len(UI(m)) : UI(m)[i] = j] ELSE b[CHOOSE i \in 1..Len(VI(m)) : VI(m)[i] = j]]
PU(x, m) == [i \in 1..Len(UI(m)) |-> x[UI(m)[i]]]
PV(x, m) == [i \in 1..Len(VI(m)) |-> x[VI(m)[i]]]
Full(x, tau) == [j \in Pix |-> Dr(MC, P(MC), x[j], IF j = 0 THEN 0 ELSE x[j - 1], j % 2, tau, j % 7)]
Init == /\ mask \in {m \in SUBSET Pix : m # {}}
        /\ true \in {[j \in Pix |-> IF j \in s THEN 2048 ELSE 512] : s \in SUBSET Pix}
        /\ u = [i \in 1..Cardinality(mask) |-> 4096]
        /\ us = 100 /\ k = 0 /\ out = <<>>
Sweep == /\ k < 3
         /\ u' = [i \in DOMAIN u |-> u[i] + 100 * i]
         /\ us' = us + 10 /\ k' = k + 1
         /\ out' = Append(out, Concat(u', PV(true, mask), mask))
         /\ UNCHANGED <<mask, true>>
Next == Sweep
Spec == Init /\ [][Next]_vars
Assembled == \A i \in 1..Len(out) :
   /\ \A j \in Pix \ mask : out[i][j] = true[j]
   /\ PU(out[i], mask) = [q \in DOMAIN u |-> 4096 + 100 * q * i]
   /\ PV(out[i], mask) = PV(true, mask)
Factorises == LET x == Concat(u, PV(true, mask), mask) IN
   /\ Concat(PU(Full(x, 2048), mask), PV(Full(x, 2048), mask), mask) = Full(x, 2048)
   /\ \A j \in Pix : j \in mask <=> \E i \in 1..Len(UI(mask)) : UI(mask)[i] = j
\* the difference of two drifts is the drift of the difference without its constant part
Moves == LET x == Concat(u, PV(true, mask), mask)
             d == Full(x, 2048)  z == Full(true, 2048)
         IN \A j \in Pix : Abs((d[j] - z[j]) - Df(MC, P(MC), x[j] - true[j], IF j = 0 THEN 0 ELSE x[j - 1] - true[j - 1], j % 2, 2048)) <= 3
===================================================================================
