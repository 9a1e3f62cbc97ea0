---------------------------- MODULE ResamplingMC ----------------------------
(* For every weight vector with n <= NMax entries of sum S, the laws defined in
   Resampling have the promised properties
   and mixing the conditional laws restores the unconditional ones. *)
EXTENDS Resampling
CONSTANTS NMax, SMax
VARIABLES w, scheme
Schemes == {"multinomial", "stratified", "systematic", "killing"}
Vecs == UNION {{v \in [1..n -> 0..SMax] : Sum(v) \in 1..SMax} : n \in 1..NMax}
Init == w \in Vecs /\ scheme \in Schemes
Next == UNCHANGED <<w, scheme>>
Spec == Init /\ [][Next]_<<w, scheme>>

Uniform == \A i \in 1..Len(w) : w[i] = w[1]
LawOK == LET d == Law(scheme, w) IN
         /\ Normalised(d)
         /\ Unbiased(d, w)
         /\ NoGhost(d, w)
         /\ scheme = "systematic" => \A x \in DSupport(d) : FloorCeil(x, w) /\ IsSorted(x)
         /\ scheme = "stratified" => \A x \in DSupport(d) : InStratum(x, w) /\ IsSorted(x)
         /\ scheme = "killing" => \A x \in DSupport(d) : MaxSurvives(x, w)
         /\ (Uniform /\ scheme \in {"systematic", "killing", "stratified"}) =>
               DSupport(d) = {[i \in 1..Len(w) |-> i]}
\* mixing the conditional law over (i, j) gives back the unconditional one
CondOK == scheme \in {"multinomial", "killing"} =>
          LET n == Len(w)
              base == IF scheme = "killing" THEN Shifted(Law(scheme, w), n) ELSE Law(scheme, w)
              mix == DBind(DUniform(1..n), LAMBDA j :
                        DBind(Single(w), LAMBDA i : CondLaw(scheme, w, i, j)))
          IN \A x \in DSupport(base) \cup DSupport(mix) : DProb(base, x) = DProb(mix, x)

=============================================================================
